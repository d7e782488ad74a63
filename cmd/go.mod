module vsim

go 1.22
