module verifsim.local/hook

go 1.17
