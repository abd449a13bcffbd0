module gvc

go 1.24
