module verifprep

go 1.21
