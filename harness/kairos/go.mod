module github.com/rhansen/go-kairos

go 1.20
