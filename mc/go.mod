module github.com/BTBurke/monny/mc

go 1.23
