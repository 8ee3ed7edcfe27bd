module verif.local/harness

go 1.27

require (
	github.com/dlclark/regexp2 v1.4.0
	github.com/nlpodyssey/gotokenizers v0.0.0
	verif.local/regexp2ref v0.0.0
	verif.local/simrt v0.0.0
)
