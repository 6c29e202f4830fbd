module instr

go 1.19
