module verifinstr

go 1.23.0
