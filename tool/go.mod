module gov

go 1.25
