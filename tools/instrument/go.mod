module instrument

go 1.23
