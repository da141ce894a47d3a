module verif/harness

go 1.21

require github.com/trimmer-io/go-xmp v0.0.0

replace github.com/trimmer-io/go-xmp => /repo
