module vinst

go 1.22
