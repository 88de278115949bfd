module verif/harness

go 1.25

require github.com/jhump/gopoet v0.0.0

replace github.com/jhump/gopoet => /repo
