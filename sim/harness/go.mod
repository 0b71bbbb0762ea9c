module verifsim

go 1.20

require github.com/akito0107/xsqlparser v0.0.0

replace github.com/akito0107/xsqlparser => /repo
