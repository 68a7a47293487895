module verif/instr

go 1.20
