package main

import (
	"context"
	"fmt"
	"io"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/intel/forGoParallel/internal/zzverif/sim"
	"github.com/intel/forGoParallel/pipeline"
)

// Event kinds of package pipeline.
const (
	kFetch     = 40 + iota // A: requested, B: fetched, C: length of the data
	kIn                    // receiver called; A: id, B: sequence number, C: length
	kDig                   // same call; C: digest of the data
	kOut                   // receiver returns
	kFin                   // finalizer called; A: id
	kSize                  // filter called; A: id, B: expected size
	kNotify                // notifier started; A: index
	kNotified              // notifier ended
	kRunRet                // Run returned
	kPred                  // predicate evaluated; A: id, B: result
	kSetErr                // SetErr returned; A: who, B: result
	kErr                   // Err observed; A: 0 nil, else 1+index
	kErrCall               // Err or SetErr is about to be called
	kBegin                 // Run is about to be called
	kAct                   // fault thread acts
	kPaced                 // nothing is left to do for the batches fetched so far
	kCancelled             // the context has been canceled
	kNode                  // a call of a method of a user-defined node; A: stage, B: which one, C: sequence number
	kCancelRet             // Cancel has returned
	kSrc                   // a call of a method of the source; A: which one, B: details
)

func init() {
	for k, s := range map[uint32]string{kFetch: "fetch", kIn: "receiver-called", kDig: "data-digest", kOut: "receiver-returned", kFin: "finalizer-called", kSize: "filter-composed", kNotify: "notifier-started", kNotified: "notifier-ended",
		kRunRet: "run-returned", kPred: "predicate", kSetErr: "set-err", kErr: "err-observed", kErrCall: "err-called", kBegin: "run-called", kAct: "external-action", kNode: "node-method", kCancelled: "cancelled", kPaced: "nothing-left-to-do", kSrc: "source-method", kCancelRet: "cancel-returned"} {
		kindNames[k] = s
	}
}

// Kinds of stages.
const (
	sOrd = iota
	sSeq
	sPar
	sLim
	sStrict
	sPass // a node type defined by the user
	sLimit
	sSkip
	nStages
)

var stageNames = [nStages]string{"Ord", "Seq", "Par", "LimitedPar", "StrictOrd", "user-defined node", "Limit", "Skip"}

// Kinds of filters.
const (
	fRecv = iota
	fFin
	fBoth
	fIdent
	fRaw
	fNil
	fAppend
	fCount
	fEvery
	fNotEvery
	fSome
	fNotAny
	nFilters
)

var filterNames = [nFilters]string{"Receive", "Finalize", "ReceiveAndFinalize", "Identity", "filter", "empty filter", "Append", "Count", "Every", "NotEvery", "Some", "NotAny"}

// What a receiver does to a batch.
const (
	opKeep = iota
	opMap
	opDrop
	opEmpty
	opGrow
	opSeq
	nOps
)

type PFilter struct {
	Kind, Op  int
	C         int // constant of the operation or the predicate
	Pre, Post int
	Gate      bool
	First     bool // only the first batch waits at the gate
	Slow      int  // this batch (plus one) is held until nothing else can happen; or the finalizer is
	Cancel    bool // cancelWhenKnown
	Sub       int  // executes this part of the plan for the first batch (C01)
}

type PStage struct {
	Kind      int
	Transform int // 0: none; 1: Transform; 2..6: Ord-, Seq-, Par-, LimitedPar-, StrictOrdTransform
	To        int // 0: []int; 1: *box; 2: any
	N         int // argument of Limit and Skip; variant of a user-defined node
	Cancel    bool
	Separate  bool // added by a call of its own
	Filters   []PFilter
}

// Kinds of sources.
const (
	srcSlice = iota
	srcScanner
	srcBytes
	srcFunc
	srcFuncSized
	srcMulti
	srcChan
	nSrcs
)

var srcNames = [nSrcs]string{"Slice", "Scanner", "BytesScanner", "Func", "Func with known size", "MultiChan", "Chan"}

type PSrc struct {
	Kind   int
	N      int
	Chunks []int // sizes of reads, fetches or channel elements; 0: empty read
	ErrAt  int   // fails at this byte (readers) or fetch (functions); 0: never
	ErrBy  bool  // the error comes together with data
	Once   bool  // after the error the function reports the end
	Stay   bool  // the channel is never closed
	Work   int
	Words  bool
	Long   int  // some of the lines are so long
	Slow   int  // this fetch (plus one) is held until nothing else can happen
	Late   bool // not the fetch is held, but the sender of the channel
	Any    bool // the elements of the channel are of type any
	Blank  bool // some of the lines or of the elements of a channel are empty
}

// tooLong reports whether there is a line that does not fit into the buffer.
func (s *PSrc) tooLong() bool {
	return s.Long > 60000 && s.N > 1 && (s.Kind == srcScanner || s.Kind == srcBytes)
}

// Kinds of faults.
const (
	xNone     = iota
	xCancel   // a receiver calls Cancel
	xSetErr   // a receiver calls SetErr
	xExtern   // another goroutine cancels the context
	xDeadline // the context has a deadline
	xParent   // the parent context is canceled
	nFaultKinds
)

type PFault struct {
	Kind  int
	Stage int
	Seq   int // fires at this sequence number
	After int // scheduling points or, for deadlines, nanoseconds
	Where int // what calls Cancel or SetErr
}

// Where Cancel or SetErr are called.
const (
	inReceiver = iota
	inFinalizer
	inFilter  // when the filter is asked for its receiver
	inPrepare // by the source
	inFetch   // by the source
	nWheres
)

type PNotifier struct {
	Act   int // 0: nothing, 1: waits until a receiver was called, 2: SetErr, 3: Cancel, 4: Err, 5: waits for the end of the context
	Delay int
}

type PipePlan struct {
	NCPU          int
	Src           PSrc
	Stages        []PStage
	Nof, Inc, Max int
	Faults        []PFault
	Notify        []PNotifier
	ErrKind       int   // what kind of errors are raised
	ErrWho        int   // who raises the well-known error
	Early         bool  // SetErr is called before Run
	LateFirst     bool  // of several that are held, the last stage is the first to go on
	Beside        int   // a goroutine that was started before Run calls SetErr after so many points (plus one)
	Paced         bool  // batches become available when nothing is left to do for the ones before
	NoCancel      bool  // RunWithContext, and nobody calls cancel afterwards
	Bare          bool  // the source is not wrapped
	AskNof        bool  // the number of batches is asked for before the run
	Carve         int   // the filters of the stages are parts of one array, in an order that depends on this
	Direct        []int // the source is used without a pipeline; sizes of the requests
	Handle        int   // which of the pipelines that share their state is used for what
}

type box struct{ v []int }

type codec[T any] struct {
	dec func(T) []int
	enc func([]int) T
}

var intCodec = codec[[]int]{func(x []int) []int { return x }, func(x []int) []int { return x }}
var boxCodec = codec[*box]{
	func(b *box) []int {
		if b == nil {
			return nil
		}
		return b.v
	}, func(x []int) *box {
		if x == nil {
			return nil
		}
		return &box{x}
	}}

// Empty batches may be nil interfaces.
var anyCodec = codec[any]{
	func(x any) []int {
		v, _ := x.([]int)
		return v
	}, func(v []int) any {
		if v == nil {
			return nil
		}
		return v
	}}
var strCodec = codec[[]string]{
	func(s []string) (r []int) {
		for _, x := range s {
			n, err := strconv.Atoi(x)
			if err != nil && x != "" {
				n = -1
			}
			r = append(r, n)
		}
		return
	}, func(v []int) (r []string) {
		for _, x := range v {
			if x == 0 {
				r = append(r, "")
				continue
			}
			r = append(r, strconv.Itoa(x))
		}
		return
	}}
var bytesCodec = codec[[][]byte]{
	func(s [][]byte) (r []int) {
		for _, x := range s {
			n, err := strconv.Atoi(string(x))
			if err != nil && len(x) > 0 {
				n = -1
			}
			r = append(r, n)
		}
		return
	}, func(v []int) (r [][]byte) {
		for _, x := range v {
			if x == 0 {
				r = append(r, []byte{})
				continue
			}
			r = append(r, strconv.AppendInt(nil, int64(x), 10))
		}
		return
	}}

type libRes struct {
	ints  []int
	strs  []string
	n     int
	b     bool
	typed int // 0: not used, 1: ints, 2: strs, 3: n, 4: b
}

// count is the number of elements that a collecting or counting filter has seen.
func (r *libRes) count() int {
	if r.typed == 3 {
		return r.n
	}
	return len(r.ints) + len(strCodec.dec(r.strs))
}

type pipeState struct {
	logger
	sub       []func() // parts to be executed by receivers
	p         *PipePlan
	res       map[int]*libRes // of library filters
	fetched   [][]int         // batches seen by the source wrapper
	items     []int
	srcSize   int // announced size or -1
	requests  []int
	srcErr    bool // the source reported an error
	failed    bool // a reader or function has returned an error to the source
	prepCtx   context.Context
	behind    []int // what lies behind the slice of the source
	ctxWrong  string
	funcCtx   context.Context
	direct    string // what is wrong with a source that is used without a pipeline
	directEnd bool   // such a source was canceled
	nofWrong  string

	handles []handle
	final   error
	stop    chan struct{}
}

// A handle is one of the pipelines of a chain of transformations; all of them
// stand for the same run.
type handle struct {
	cancel   func()
	setErr   func(error) bool
	getErr   func() error
	run      func()
	ctx      func() context.Context
	runCtx   func(context.Context, context.CancelFunc)
	batches  func(int) int
	variable func(int, int)
	notify   func(func())
}

func (st *pipeState) addHandle(h handle) { st.handles = append(st.handles, h) }

// h chooses the handle for an operation.
func (st *pipeState) h(op int) *handle {
	return &st.handles[(st.p.Handle>>(2*op)&3)%len(st.handles)]
}

const (
	hRun = iota
	hCancel
	hSetErr
	hErr
	hBatches
	hNotify
	hCtx
)

func handleOf[T any](p *pipeline.Pipeline[T]) handle {
	return handle{p.Cancel, p.SetErr, p.Err, p.Run, p.Context, p.RunWithContext, p.NofBatches, p.SetVariableBatchSize, p.Notify}
}

type pipeErr struct{ who int }

func (e *pipeErr) Error() string { return fmt.Sprint("error ", e.who) }

// A causeErr is an error with a cause.
type causeErr struct{ pipeErr }

func (e *causeErr) Unwrap() error { return context.Canceled }

// Values of a listErr cannot be compared.
type listErr struct {
	who  int
	list []int
}

func (e listErr) Error() string { return fmt.Sprint("errors ", e.who) }

// bySource stands for the error of the source.
const bySource = 999

var sentinels = []error{context.Canceled, context.DeadlineExceeded, io.ErrUnexpectedEOF, io.EOF}

// newErr makes an error. What kind of error it is must not matter.
func (st *pipeState) newErr(who int) error {
	switch k := st.p.ErrKind; {
	case k == 1:
		return &causeErr{pipeErr{who}}
	case k == 2:
		return listErr{who, nil}
	case k > 2 && st.p.ErrWho == who:
		reader := who == bySource && (st.p.Src.Kind == srcScanner || st.p.Src.Kind == srcBytes)
		if err := sentinels[(k-3)%len(sentinels)]; err != io.EOF || !reader {
			return err
		}
	}
	return &pipeErr{who}
}

func digest(v []int) int64 {
	h := uint64(1469598103934665603)
	for _, x := range v {
		h = (h ^ uint64(x)) * 1099511628211
		h ^= h >> 31
	}
	return int64(h)
}

// applyOp is the model of a receiver. It works in place where it can, as user
// code would.
func applyOp(f *PFilter, seq int, v []int) []int {
	switch f.Op {
	case opMap:
		for i := range v {
			v[i] = (v[i]*3 + f.C) & 0xfffffff
		}
	case opDrop:
		w := v[:0]
		for _, x := range v {
			if x%3 != f.C%3 {
				w = append(w, x)
			}
		}
		return w
	case opEmpty:
		if seq%3 == f.C%3 {
			return nil
		}
	case opGrow:
		if len(v) < 40 {
			v = append(v, 1000+f.C)
		}
	case opSeq:
		for i := range v {
			v[i] = v[i]*2 + seq
		}
	}
	return v
}

func holds(f *PFilter, v []int) bool {
	s := f.C
	for _, x := range v {
		s += x
	}
	switch {
	case f.C%4 == 0:
		return true
	case f.C%4 == 1:
		return false
	}
	return s%(2+f.C%5) != 0
}

func (st *pipeState) receiver(id, stage int, f *PFilter) func(seq int, v []int) []int {
	return func(seq int, v []int) []int {
		st.log(kIn, int64(id), int64(seq), int64(len(v)))
		st.log(kDig, int64(id), int64(seq), digest(v))
		if len(st.p.Notify) > 0 {
			sim.GateOpen(1)
		}
		sim.Work(f.Pre)
		if f.Sub > 0 && f.Sub <= len(st.sub) && seq == 0 {
			st.sub[f.Sub-1]()
		}
		if f.Gate && (seq == 0 || !f.First) {
			F(fStall)
			sim.GateWait(0)
		}
		if f.Slow == seq+1 {
			st.hold(id)
		}
		st.fire(inReceiver, stage, seq, id&15)
		v = applyOp(f, seq, v)
		sim.Work(f.Post)
		st.log(kOut, int64(id), int64(seq), 0)
		return v
	}
}

// hold waits until nothing else can happen in the simulation.
func (st *pipeState) hold(id int) {
	F(fStall)
	sim.GateWait(20 + id%220)
}

// release lets one of those who hold go on.
func (st *pipeState) release(int) bool {
	for k := range 221 {
		g := 20 + k
		if st.p.LateFirst {
			g = 240 - k
		}
		if sim.GateWaiting(g) > 0 {
			sim.GateOpen(g)
			return true
		}
	}
	return false
}

// fire calls Cancel and SetErr if the plan wants it here.
func (st *pipeState) fire(where, stage, seq, k int) {
	for i := range st.p.Faults {
		x := &st.p.Faults[i]
		if x.Where != where || x.Stage != stage && where < inPrepare || x.Seq != seq && (where == inReceiver || where == inFetch) {
			continue
		}
		switch x.Kind {
		case xCancel:
			if where != inReceiver || k == 0 {
				F(fCancel)
				st.h(hCancel).cancel()
				st.log(kCancelRet, 0, 0, 0)
			}
		case xSetErr:
			F(fSetErr)
			st.trySetErr(i)
		}
	}
}

func (st *pipeState) trySetErr(who int) {
	e := st.newErr(who)
	st.log(kErrCall, 0, 0, 0)
	ok := st.h(hSetErr).setErr(e)
	v := int64(0)
	if ok {
		v = 1
	}
	st.log(kSetErr, int64(who), v, 0)
	st.observeErr()
}

func (st *pipeState) observeErr() {
	st.log(kErrCall, 0, 0, 0)
	st.log(kErr, st.errCode(st.h(hErr).getErr()), 0, 0)
}

// errCode is the number of the one who has raised an error, plus one.
func (st *pipeState) errCode(err error) int64 {
	switch e := err.(type) {
	case nil:
		return 0
	case *pipeErr:
		return int64(1 + e.who)
	case *causeErr:
		return int64(1 + e.who)
	case listErr:
		return int64(1 + e.who)
	}
	if st.p.ErrKind > 2 && err == sentinels[(st.p.ErrKind-3)%len(sentinels)] {
		return int64(1 + st.p.ErrWho)
	}
	return 2000
}

// resize is how a filter of the given operation must change a known size.
func resize(f *PFilter, size *int) {
	switch f.Op {
	case opDrop, opEmpty, opGrow:
		if *size >= 0 {
			*size = -1
		}
	}
}

func buildFilter[T any](st *pipeState, owner *pipeline.Pipeline[T], c codec[T], stage, k int, f *PFilter) pipeline.Filter[T] {
	id := stage*16 + k
	recv := func(seq int, data T) T { return c.enc(st.receiver(id, stage, f)(seq, c.dec(data))) }
	fin := func() {
		st.log(kFin, int64(id), 0, 0)
		st.fire(inFinalizer, stage, 0, k)
		sim.Work(f.Post)
		if f.Slow > 0 && f.Kind == fFin {
			st.hold(id)
		}
	}
	sized := func(g pipeline.Filter[T]) pipeline.Filter[T] {
		return func(p *pipeline.Pipeline[T], kind pipeline.NodeKind, size *int) (pipeline.Receiver[T], pipeline.Finalizer) {
			st.log(kSize, int64(id), int64(*size), int64(kind))
			if p != owner {
				st.log(kNode, int64(stage), nWrongPipe, 1)
			}
			st.fire(inFilter, stage, 0, k)
			r, z := g(p, kind, size)
			if f.Kind == fRecv || f.Kind == fBoth || f.Kind == fRaw {
				resize(f, size)
			}
			return r, z
		}
	}
	switch f.Kind {
	case fRecv:
		return sized(pipeline.Receive(recv))
	case fFin:
		return sized(pipeline.Finalize[T](fin))
	case fBoth:
		return sized(pipeline.ReceiveAndFinalize(recv, fin))
	case fIdent:
		return pipeline.Identity[T]
	case fNil:
		return sized(func(*pipeline.Pipeline[T], pipeline.NodeKind, *int) (pipeline.Receiver[T], pipeline.Finalizer) {
			return nil, nil
		})
	case fAppend:
		r := st.res[id]
		var g any
		switch any(c).(type) {
		case codec[[]int]:
			r.typed = 1
			g = pipeline.Append(&r.ints)
		case codec[[]string]:
			r.typed = 2
			g = pipeline.Append(&r.strs)
		default:
			return sized(pipeline.Receive(recv))
		}
		return sized(g.(pipeline.Filter[T]))
	case fCount:
		r := st.res[id]
		r.n = 7 * (f.C % 3) // The result must not depend on what was there before.
		var g any
		switch any(c).(type) {
		case codec[[]int]:
			g = pipeline.Count[int](&r.n)
		case codec[[]string]:
			g = pipeline.Count[string](&r.n)
		case codec[[][]byte]:
			g = pipeline.Count[[]byte](&r.n)
		default:
			return sized(pipeline.Receive(recv))
		}
		r.typed = 3
		return sized(g.(pipeline.Filter[T]))
	case fEvery, fNotEvery, fSome, fNotAny:
		r := st.res[id]
		r.typed = 4
		pred := func(data T) bool {
			v := c.dec(data)
			h := holds(f, v)
			sim.Work(f.Pre)
			b := int64(0)
			if h {
				b = 1
			}
			st.log(kPred, int64(id), b, digest(v))
			sim.Work(f.Post)
			return h
		}
		r.b = f.C%2 == 0
		switch f.Kind {
		case fEvery:
			return sized(pipeline.Every(&r.b, f.Cancel, pred))
		case fNotEvery:
			return sized(pipeline.NotEvery(&r.b, f.Cancel, pred))
		case fSome:
			return sized(pipeline.Some(&r.b, f.Cancel, pred))
		}
		return sized(pipeline.NotAny(&r.b, f.Cancel, pred))
	}
	return sized(func(*pipeline.Pipeline[T], pipeline.NodeKind, *int) (pipeline.Receiver[T], pipeline.Finalizer) {
		return recv, nil
	})
}

// Variants of user-defined nodes.
const (
	uInline  = iota // calls its receivers in the goroutine that feeds it
	uSpawn          // starts a goroutine for each batch
	uWorker         // has a goroutine that handles the batches as they come
	uDecline        // does not want to see any batches
	uMerge          // can be merged with its kind
	uStrict         // contains a StrictOrd node
	uOrd            // contains an Ord node
	uPar            // contains a Par node
	uLim            // contains a LimitedPar node
	uSeq            // contains a Seq node
	nVariants
)

var variantNames = [nVariants]string{"inline", "spawning", "with a worker", "declining", "mergeable", "around StrictOrd", "around Ord", "around Par", "around LimitedPar", "around Seq"}

// Methods of nodes and other events in their life.
const (
	nBegin = 1 + iota
	nFeed
	nFed
	nEnd
	nEnded
	nMerged
	nWrongPipe
	nBegun // ready for batches
)

// Methods of sources.
const (
	sPrepare = 1 + iota
	sFetch
	sData
	sWrong // B: what is wrong
)

// A userNode is a node type outside of the package.
type userNode[T any] struct {
	st       *pipeState
	stage    int
	variant  int
	owner    *pipeline.Pipeline[T]
	filters  []pipeline.Filter[T]
	recv     []pipeline.Receiver[T]
	fin      []pipeline.Finalizer
	inner    pipeline.Node[T]
	wg       sync.WaitGroup
	work     chan func()
	begun    bool
	declined bool
}

func newUserNode[T any](st *pipeState, p *pipeline.Pipeline[T], stage, variant int, fs []pipeline.Filter[T]) *userNode[T] {
	n := &userNode[T]{st: st, stage: stage, variant: variant, owner: p, filters: fs}
	switch variant {
	case uStrict:
		n.inner = pipeline.StrictOrd(fs...)
	case uOrd:
		n.inner = pipeline.Ord(fs...)
	case uPar:
		n.inner = pipeline.Par(fs...)
	case uLim:
		n.inner = pipeline.LimitedPar(fs...)
	case uSeq:
		n.inner = pipeline.Seq(fs...)
	}
	return n
}

func (n *userNode[T]) log(what, v int) { n.st.log(kNode, int64(n.stage), int64(what), int64(v)) }

func (n *userNode[T]) TryMerge(next pipeline.Node[T]) bool {
	m, ok := next.(*userNode[T])
	if !ok || n.variant != uMerge || m.variant != uMerge || n.begun != m.begun {
		return false
	}
	m.log(nMerged, 0)
	n.filters = append(n.filters, m.filters...)
	n.recv = append(n.recv, m.recv...)
	n.fin = append(n.fin, m.fin...)
	return true
}

func (n *userNode[T]) Begin(p *pipeline.Pipeline[T], index int, size *int) (keep bool) {
	n.log(nBegin, index)
	if p != n.owner {
		n.log(nWrongPipe, 0)
	}
	n.begun = true
	if n.inner != nil {
		keep = n.inner.Begin(p, index, size)
	} else if n.variant != uDecline {
		n.recv, n.fin = pipeline.ComposeFilters(p, pipeline.Parallel, size, n.filters)
		keep = len(n.recv)+len(n.fin) > 0
	}
	if keep && n.variant == uWorker {
		n.work = make(chan func())
		n.wg.Add(1)
		go func() {
			defer n.wg.Done()
			for {
				select {
				case <-p.Context().Done():
					return
				case f, ok := <-n.work:
					if !ok {
						return
					}
					f()
				}
			}
		}()
	}
	n.declined = !keep
	if keep {
		n.log(nBegun, 1)
	} else {
		n.log(nBegun, 0)
	}
	return keep
}

func (n *userNode[T]) StrictOrd() bool { return n.inner != nil && n.inner.StrictOrd() }

func (n *userNode[T]) Feed(p *pipeline.Pipeline[T], index, seq int, data T) {
	n.log(nFeed, seq)
	if p != n.owner {
		n.log(nWrongPipe, 0)
	}
	switch handle := func() {
		for _, r := range n.recv {
			data = r(seq, data)
		}
		p.FeedForward(index, seq, data)
	}; {
	case n.inner != nil:
		n.inner.Feed(p, index, seq, data)
	case n.variant == uSpawn:
		n.wg.Add(1)
		go func() {
			defer n.wg.Done()
			select {
			case <-p.Context().Done():
			default:
				handle()
			}
		}()
	case n.variant == uWorker:
		select {
		case <-p.Context().Done():
		case n.work <- handle:
		}
	default:
		handle()
	}
	n.log(nFed, seq)
}

func (n *userNode[T]) End() {
	n.log(nEnd, 0)
	if n.inner != nil {
		n.inner.End()
	}
	if n.work != nil {
		close(n.work)
	}
	n.wg.Wait()
	for _, f := range n.fin {
		f()
	}
	n.log(nEnded, 0)
}

// carve provides room for the filters of stages: parts of one array.
func carve[T any](p *PipePlan, first int) map[int][]pipeline.Filter[T] {
	if p.Carve == 0 {
		return nil
	}
	n := 0
	var order []int
	for i := first; i < len(p.Stages) && p.Stages[i].Transform == 0; i++ {
		order = append(order, i)
		n += len(p.Stages[i].Filters)
	}
	h := uint64(p.Carve)
	for i := range order {
		h = (h ^ h>>31) * 0x9e3779b97f4a7c15
		k := i + int(h>>33)%(len(order)-i)
		order[i], order[k] = order[k], order[i]
	}
	all := make([]pipeline.Filter[T], n)
	room := map[int][]pipeline.Filter[T]{}
	for _, i := range order {
		room[i], all = all[:0], all[len(p.Stages[i].Filters):]
	}
	return room
}

func addStages[T any](st *pipeState, p *pipeline.Pipeline[T], c codec[T], i int) {
	var nodes []pipeline.Node[T]
	room := carve[T](st.p, i)
	flush := func() {
		if len(nodes) > 0 {
			p.Add(nodes...)
			nodes = nil
		}
	}
	for ; i < len(st.p.Stages); i++ {
		s := &st.p.Stages[i]
		if s.Transform > 0 {
			flush()
			switch s.To {
			case 0:
				q := transform(st, p, c, intCodec, i)
				st.addHandle(handleOf(q))
				addStages(st, q, intCodec, i+1)
			case 2:
				q := transform(st, p, c, anyCodec, i)
				st.addHandle(handleOf(q))
				addStages(st, q, anyCodec, i+1)
			default:
				q := transform(st, p, c, boxCodec, i)
				st.addHandle(handleOf(q))
				addStages(st, q, boxCodec, i+1)
			}
			return
		}
		switch s.Kind {
		case sLimit, sSkip:
			var g any
			switch any(c).(type) {
			case codec[[]int]:
				if s.Kind == sLimit {
					g = pipeline.Limit[int](s.N, s.Cancel)
				} else {
					g = pipeline.Skip[int](s.N)
				}
			case codec[[]string]:
				if s.Kind == sLimit {
					g = pipeline.Limit[string](s.N, s.Cancel)
				} else {
					g = pipeline.Skip[string](s.N)
				}
			default:
				continue
			}
			st.res[i*16+14] = &libRes{typed: 5}
			nodes = append(nodes, g.(pipeline.Node[T]))
		default:
			fs := room[i]
			for k := range s.Filters {
				fs = append(fs, buildFilter(st, p, c, i, k, &s.Filters[k]))
			}
			switch s.Kind {
			case sOrd:
				nodes = append(nodes, pipeline.Ord(fs...))
			case sSeq:
				nodes = append(nodes, pipeline.Seq(fs...))
			case sPar:
				nodes = append(nodes, pipeline.Par(fs...))
			case sLim:
				nodes = append(nodes, pipeline.LimitedPar(fs...))
			case sStrict:
				nodes = append(nodes, pipeline.StrictOrd(fs...))
			case sPass:
				nodes = append(nodes, newUserNode(st, p, i, s.N, slices.Clip(fs)))
			}
		}
		if s.Separate {
			flush()
		}
	}
	flush()
}

func transform[T, U any](st *pipeState, p *pipeline.Pipeline[T], c codec[T], d codec[U], i int) *pipeline.Pipeline[U] {
	s := &st.p.Stages[i]
	f := &PFilter{Op: opKeep}
	if len(s.Filters) > 0 {
		g := s.Filters[0]
		f = &g
	}
	f.Kind = fRecv
	r := st.receiver(i*16, i, f)
	tf := func(seq int, data T) U { return d.enc(r(seq, c.dec(data))) }
	switch s.Transform {
	case 2:
		return pipeline.OrdTransform(p, tf)
	case 3:
		return pipeline.SeqTransform(p, tf)
	case 4:
		return pipeline.ParTransform(p, tf)
	case 5:
		return pipeline.LimitedParTransform(p, tf)
	case 6:
		return pipeline.StrictOrdTransform(p, tf)
	}
	return pipeline.Transform(p, tf)
}

// watched wraps a source and records what it delivers and how it is used.
type watched[T any] struct {
	pipeline.Source[T]
	st       *pipeState
	c        codec[T]
	busy     int
	prepared int
	fetches  int
	got      bool // the last Fetch has found something
	over     bool // a Fetch has found nothing
}

// What can be wrong with the use of a source.
const (
	wConcurrent = 1 + iota
	wPrepareTwice
	wUnprepared
	wAfterEnd
	wSize
	wNoData
	wAfterError
)

var wrongNames = []string{"", "its methods are called concurrently", "Prepare is called twice", "Fetch is called before Prepare", "Fetch is called again after it has returned 0", "Fetch is called for less than one element", "Data is called although nothing was fetched", "Fetch is called again although the source has reported an error"}

func (w *watched[T]) wrong(what int) { w.st.log(kSrc, sWrong, int64(what), 0) }

func (w *watched[T]) enter() {
	if w.busy++; w.busy > 1 {
		w.wrong(wConcurrent)
	}
}

func (w *watched[T]) leave() { w.busy-- }

func (w *watched[T]) Prepare(ctx context.Context) int {
	w.enter()
	defer w.leave()
	w.st.log(kSrc, sPrepare, 0, 0)
	if w.prepared++; w.prepared > 1 {
		w.wrong(wPrepareTwice)
	}
	w.st.prepCtx = ctx
	w.st.fire(inPrepare, 0, 0, 0)
	n := w.Source.Prepare(ctx)
	w.st.srcSize = n
	return n
}

func (w *watched[T]) Fetch(n int) int {
	w.enter()
	defer w.leave()
	w.st.log(kSrc, sFetch, int64(n), 0)
	switch {
	case w.prepared == 0:
		w.wrong(wUnprepared)
	case w.over:
		w.wrong(wAfterEnd)
	case n < 1:
		w.wrong(wSize)
	case w.st.srcErr:
		w.wrong(wAfterError)
	}
	if w.st.p.Paced {
		sim.GateClose(0)
		sim.GateWait(0)
	}
	w.st.fire(inFetch, 0, w.fetches, 0)
	if w.fetches++; w.st.p.Src.Slow == w.fetches && !w.st.p.Src.Late {
		w.st.hold(220)
	}
	k := w.Source.Fetch(n)
	if w.Source.Err() != nil {
		w.st.srcErr = true
	}
	l := -1
	if w.got = k > 0; w.got {
		v := append([]int(nil), w.c.dec(w.Source.Data())...)
		w.st.fetched = append(w.st.fetched, v)
		w.st.requests = append(w.st.requests, n)
		l = len(v)
	} else {
		w.over = true
	}
	w.st.log(kFetch, int64(n), int64(k), int64(l))
	return k
}

func (w *watched[T]) Data() T {
	w.enter()
	defer w.leave()
	if !w.got {
		w.wrong(wNoData)
	}
	return w.Source.Data()
}

func (w *watched[T]) Err() error {
	err := w.Source.Err()
	if err != nil {
		w.st.srcErr = true
	}
	return err
}

// drive uses a source as a pipeline does, but asks for batches of any sizes.
func drive[T any](st *pipeState, src pipeline.Source[T], c codec[T]) {
	p := st.p
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for i := range p.Faults {
		go func() {
			sim.Work(p.Faults[i].After)
			F(fCancel)
			cancel()
		}()
	}
	wrong := func(format string, args ...any) {
		if st.direct == "" {
			st.direct = fmt.Sprintf(format, args...)
		}
	}
	want := -1
	if p.Src.Kind == srcSlice || p.Src.Kind == srcFuncSized {
		want = p.Src.N
	}
	if n := src.Prepare(ctx); n != want {
		wrong("Prepare returns %d instead of %d", n, want)
	}
	failed := func() bool { return st.failed || p.Src.tooLong() }
	perElement := p.Src.Kind != srcChan
	for k := 0; ; k++ {
		if err := src.Err(); err != nil && !failed() {
			wrong("Err returns %v although nothing has failed", err)
			return
		}
		n := p.Direct[k%len(p.Direct)]
		before := ctx.Err() != nil
		got := src.Fetch(n)
		st.log(kFetch, int64(n), int64(got), 0)
		if got == 0 {
			st.directEnd = before || ctx.Err() != nil
			break
		}
		if got < 0 || got > n {
			wrong("Fetch(%d) returns %d", n, got)
			return
		}
		v := append([]int(nil), c.dec(src.Data())...)
		if perElement && len(v) != got {
			wrong("Fetch(%d) returns %d, but the batch has %d elements", n, got, len(v))
			return
		}
		if again := c.dec(src.Data()); !slices.Equal(v, again) {
			wrong("Data returns %v and then %v", v, again)
			return
		}
		st.requests = append(st.requests, n)
		st.fetched = append(st.fetched, v)
		if s, ok := any(src.Data()).([]int); ok {
			// What users do with a batch is no concern of the others.
			for i := range s {
				s[i] = -9
			}
			_ = append(s, -7, -7, -7)
		}
		if err := src.Err(); err != nil {
			if !failed() {
				wrong("Err returns %v although nothing has failed", err)
			}
			return
		}
	}
	if err := src.Err(); failed() != (err != nil) && !st.directEnd && !p.Src.Once {
		wrong("Err returns %v after the end; has the input failed? %t", err, failed())
	}
}

func startPipe[T any](st *pipeState, src pipeline.Source[T], c codec[T]) {
	if len(st.p.Direct) > 0 {
		drive(st, src, c)
		return
	}
	if !st.p.Bare {
		src = &watched[T]{Source: src, st: st, c: c}
	}
	p := pipeline.New(src)
	st.addHandle(handleOf(p))
	addStages(st, p, c, 0)
	if st.p.Nof > 0 {
		if n := st.h(hBatches).batches(st.p.Nof); n != st.p.Nof {
			st.nofWrong = fmt.Sprintf("NofBatches(%d) returns %d", st.p.Nof, n)
		}
	}
	if st.p.AskNof {
		want := st.p.NCPU
		if st.p.Nof > 0 {
			want = st.p.Nof
		}
		if n := st.h(hErr).batches(-(st.p.Handle & 1)); n != want {
			st.nofWrong = fmt.Sprintf("the pipeline says that it has %d batches instead of %d", n, want)
		}
	}
	if st.p.Inc != 0 || st.p.Max != 0 {
		st.h(hBatches).variable(st.p.Inc, st.p.Max)
	}
	for i := range st.p.Notify {
		n := st.p.Notify[i]
		st.h(hNotify).notify(func() {
			st.log(kNotify, int64(i), 0, 0)
			sim.Work(n.Delay)
			switch n.Act {
			case 1:
				F(fNotifyStall)
				sim.GateWait(1)
			case 2:
				F(fSetErr)
				st.trySetErr(100 + i)
			case 3:
				F(fCancel)
				st.h(hCancel).cancel()
				st.log(kCancelRet, 0, 0, 0)
			case 4:
				st.observeErr()
			case 5:
				F(fNotifyStall)
				<-st.h(hCtx).ctx().Done()
			}
			st.log(kNotified, int64(i), 0, 0)
		})
	}
}

// faultyReader delivers bytes in the given chunks and then fails or ends.
type faultyReader struct {
	data   []byte
	chunks []int
	k      int
	read   int
	errAt  int
	errBy  bool
	err    error
	fail   func()
	work   int
	least  int // bytes to deliver after a number of empty reads
}

func (r *faultyReader) Read(b []byte) (int, error) {
	sim.Work(r.work)
	n := len(b)
	if len(r.chunks) > 0 {
		c := r.chunks[r.k%len(r.chunks)]
		r.k++
		if c < n {
			n = c
		}
		// Readers that never make any progress make bufio.Scanner fail.
		if r.k%len(r.chunks) == 0 && n == 0 {
			n = min(r.least, len(b))
		}
	}
	if n > len(r.data)-r.read {
		n = len(r.data) - r.read
	} else if n == 0 {
		F(fZeroRead)
		return 0, nil
	} else if n < len(b) {
		F(fShortRead)
	}
	if r.errAt > 0 && r.read+n >= r.errAt {
		n = max(r.errAt-r.read, 0)
		if n > 0 && !r.errBy {
			copy(b, r.data[r.read:r.read+n])
			r.read += n
			return n, nil
		}
		copy(b, r.data[r.read:r.read+n])
		r.read += n
		F(fReadErr)
		r.fail()
		return n, r.err
	}
	copy(b, r.data[r.read:r.read+n])
	r.read += n
	if r.read == len(r.data) && (n == 0 || r.errBy) {
		return n, io.EOF
	}
	return n, nil
}

// build creates the source. It runs inside the simulation.
func (st *pipeState) build() {
	p := st.p
	for i := range p.Src.N {
		st.items = append(st.items, i+1)
	}
	for i := range p.Stages {
		for k := range p.Stages[i].Filters {
			st.res[i*16+k] = &libRes{}
		}
	}
	chunk := func(k int) int {
		if len(p.Src.Chunks) == 0 {
			return 1 << 20
		}
		return max(p.Src.Chunks[k%len(p.Src.Chunks)], 1)
	}
	st.srcSize = -1
	switch p.Src.Kind {
	case srcSlice:
		st.srcSize = p.Src.N
		a := make([]int, p.Src.N+4)
		copy(a, st.items)
		st.behind = a[p.Src.N:]
		startPipe(st, pipeline.Source[[]int](pipeline.NewSlice(a[:p.Src.N])), intCodec)
	case srcScanner, srcBytes:
		var b strings.Builder
		for i, x := range st.items {
			if p.Src.Blank && !p.Src.Words && i%4 == 2 {
				x, st.items[i] = 0, 0
			}
			if p.Src.Long > 0 && i%3 == 1 && x > 0 {
				b.WriteString(strings.Repeat("0", p.Src.Long))
			}
			if x > 0 {
				b.WriteString(strconv.Itoa(x))
			}
			switch {
			case p.Src.Words && i%3 != 0:
				b.WriteString(" ")
			case x > 0 && i == len(st.items)-1 && len(p.Src.Chunks)%2 == 1:
			case i%4 == 1:
				b.WriteString("\r\n")
			default:
				b.WriteString("\n")
			}
		}
		chunks := slices.Clone(p.Src.Chunks)
		for i := range chunks {
			chunks[i] *= 1 + p.Src.Long/16
		}
		rd := &faultyReader{data: []byte(b.String()), chunks: chunks, errAt: p.Src.ErrAt, errBy: p.Src.ErrBy, err: st.newErr(bySource), least: 1 + p.Src.Long/16, work: p.Src.Work, fail: func() { st.failed = true }}
		if p.Src.Kind == srcScanner {
			s := pipeline.NewScanner(rd)
			if p.Src.Words {
				s.Split(scanWords)
			}
			s.Buffer(make([]byte, 0, 16), 1<<16)
			startPipe(st, pipeline.Source[[]string](s), strCodec)
		} else {
			s := pipeline.NewBytesScanner(rd)
			if p.Src.Words {
				s.Split(scanWords)
			}
			s.Buffer(make([]byte, 0, 16), 1<<16)
			startPipe(st, pipeline.Source[[][]byte](s), bytesCodec)
		}
	case srcFunc, srcFuncSized:
		pos, k := 0, 0
		fetch := func(n int) ([]int, int, error) {
			sim.Work(p.Src.Work)
			k++
			if p.Src.Once && p.Src.ErrAt > 0 && k > p.Src.ErrAt {
				return nil, 0, nil
			}
			c := min(n, chunk(k-1), p.Src.N-pos)
			if p.Src.ErrAt > 0 && k >= p.Src.ErrAt {
				F(fSourceErr)
				st.failed = true
				if !p.Src.ErrBy {
					return nil, 0, st.newErr(bySource)
				}
				data := append([]int(nil), st.items[pos:pos+c]...)
				pos += c
				return data, c, st.newErr(bySource)
			}
			data := append([]int(nil), st.items[pos:pos+c]...)
			pos += c
			return data, c, nil
		}
		var prep func(context.Context) int
		if p.Src.Kind == srcFuncSized {
			st.srcSize = p.Src.N
			prep = func(ctx context.Context) int {
				st.funcCtx = ctx
				return p.Src.N
			}
		} else if p.Src.Words {
			prep = func(ctx context.Context) int {
				st.funcCtx = ctx
				return -1
			}
		}
		startPipe(st, pipeline.Source[[]int](pipeline.NewFunc(prep, fetch)), intCodec)
	case srcMulti:
		ch := make(chan int, p.Src.Work%3)
		go func() {
			for k, x := range st.items {
				sim.Work(p.Src.Work)
				if p.Src.Late && p.Src.Slow == k+1 {
					st.hold(220)
				}
				select {
				case ch <- x:
				case <-st.stop:
					return
				}
			}
			if p.Src.Stay {
				F(fChanStall)
			} else {
				F(fChanClose)
				close(ch)
			}
		}()
		startPipe(st, pipeline.Source[[]int](pipeline.NewMultiChan(ch)), intCodec)
	case srcChan:
		var ch chan []int
		var chAny chan any
		if p.Src.Any {
			chAny = make(chan any, p.Src.Work%3)
		} else {
			ch = make(chan []int, p.Src.Work%3)
		}
		go func() {
			pos := 0
			for k := 0; pos < p.Src.N; k++ {
				c := chunk(k)
				if c < 40 || c > 400 {
					c = c%5 + 1
				}
				c = min(c, p.Src.N-pos)
				sim.Work(p.Src.Work)
				if p.Src.Late && p.Src.Slow == k+1 {
					st.hold(220)
				}
				data := append([]int(nil), st.items[pos:pos+c]...)
				if p.Src.Blank && k%3 == 1 {
					c, data = 0, data[:0]
					if k%2 == 0 {
						data = nil
					}
				}
				select {
				case ch <- data:
				case chAny <- anyCodec.enc(data):
				case <-st.stop:
					return
				}
				pos += c
			}
			if p.Src.Stay {
				F(fChanStall)
			} else {
				F(fChanClose)
				if p.Src.Any {
					close(chAny)
				} else {
					close(ch)
				}
			}
		}()
		if p.Src.Any {
			startPipe(st, pipeline.Source[any](pipeline.NewChan[any](chAny)), anyCodec)
		} else {
			startPipe(st, pipeline.Source[[]int](pipeline.NewChan[[]int](ch)), intCodec)
		}
	}
}

func scanWords(data []byte, atEOF bool) (int, []byte, error) {
	i := 0
	for i < len(data) && (data[i] == ' ' || data[i] == '\n' || data[i] == '\r') {
		i++
	}
	for j := i; j < len(data); j++ {
		if data[j] == ' ' || data[j] == '\n' || data[j] == '\r' {
			return j + 1, data[i:j], nil
		}
	}
	if atEOF && i < len(data) {
		return len(data), data[i:], nil
	}
	return i, nil, nil
}

// newPipe prepares a run of the plan.
func newPipe(e *Env, p *PipePlan) *pipeState {
	e.Cfg.NCPU = int32(p.NCPU)
	if p.Src.N > 40 {
		// Each batch wakes all feeders of a strict stage.
		n := uint64(min(p.Src.N, 200))
		e.Cfg.MaxSteps += n * n * n * 20
	}
	return &pipeState{logger: e.logger, sub: e.sub, p: p, res: map[int]*libRes{}, stop: nil}
}

// contexts compares the contexts that the source has seen with the one of the pipeline.
func (st *pipeState) contexts() string {
	c := st.h(hCtx).ctx()
	if st.prepCtx == nil || c == nil {
		return ""
	}
	switch ended := c.Err() != nil; {
	case ended && st.prepCtx.Err() == nil:
		return "the context passed to Prepare is not canceled although the pipeline is"
	case !ended && st.prepCtx.Err() != nil:
		return "the context passed to Prepare is canceled although the pipeline is not"
	case st.funcCtx != nil && ended != (st.funcCtx.Err() != nil):
		return "the context that a Func source passes on is not canceled exactly if the pipeline is"
	}
	return ""
}

// root runs the pipeline inside the simulation.
func (st *pipeState) root() {
	p := st.p
	st.stop = make(chan struct{})
	st.build()
	if len(p.Direct) > 0 {
		close(st.stop)
		return
	}
	parent := context.Background()
	withCtx := p.NoCancel
	var cancels []context.CancelFunc
	for i := range p.Faults {
		switch f := p.Faults[i]; f.Kind {
		case xExtern, xParent:
			withCtx = true
			var c context.CancelFunc
			parent, c = context.WithCancel(parent)
			cancels = append(cancels, c)
			go func() {
				sim.Work(f.After)
				st.log(kAct, int64(i), 0, 0)
				if f.Kind == xExtern {
					F(fCancel)
				} else {
					F(fParentCancel)
				}
				c()
				st.log(kCancelled, 0, 0, 0)
			}()
			if f.Kind == xParent {
				var c2 context.CancelFunc
				parent, c2 = context.WithCancel(parent)
				cancels = append(cancels, c2)
			}
		case xDeadline:
			withCtx = true
			var c context.CancelFunc
			parent, c = context.WithTimeout(parent, time.Duration(f.After+1)*time.Nanosecond)
			limited := parent
			context.AfterFunc(limited, func() {
				if limited.Err() == context.DeadlineExceeded {
					F(fDeadline)
				}
			})
			cancels = append(cancels, c)
		}
	}
	if p.Beside > 0 {
		go func() {
			sim.Work(p.Beside - 1)
			F(fSetErr)
			st.trySetErr(201)
		}()
	}
	if p.Early {
		F(fSetErr)
		st.trySetErr(200)
	}
	st.log(kBegin, 0, 0, 0)
	if withCtx {
		ctx, cancel := context.WithCancel(parent)
		st.h(hRun).runCtx(ctx, func() {
			cancel()
			st.log(kCancelled, 0, 0, 0)
		})
		st.log(kErrCall, 0, 0, 0)
		st.final = st.h(hErr).getErr()
		c := int64(1)
		if ctx.Err() != nil {
			c = 2
		}
		st.log(kRunRet, st.errCode(st.final), c, 0)
		if !p.NoCancel {
			cancel()
		}
	} else {
		st.h(hRun).run()
		st.log(kErrCall, 0, 0, 0)
		st.final = st.h(hErr).getErr()
		c := int64(3)
		if ctx := st.h(hCtx).ctx(); ctx == nil || ctx.Err() != nil {
			c = 4
		}
		st.log(kRunRet, st.errCode(st.final), c, 0)
	}
	if st.contexts() != "" {
		// Somebody may be about to cancel the pipeline right now.
		time.Sleep(time.Hour)
		st.ctxWrong = st.contexts()
	}
	if !p.NoCancel {
		for i := len(cancels) - 1; i >= 0; i-- {
			cancels[i]()
		}
	}
	close(st.stop)
	sim.GateOpen(1)
}
