module runmany

go 1.20
