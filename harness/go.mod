module verif/harness

go 1.17

require github.com/go-ego/gse v0.0.0

require github.com/vcaesar/cedar v0.20.2 // indirect

replace github.com/go-ego/gse => /repo
