module kverif

go 1.21
