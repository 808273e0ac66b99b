module govc

go 1.24
