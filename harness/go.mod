module verifharness

go 1.21

require github.com/phoreproject/bls v0.0.0

replace github.com/phoreproject/bls => /repo
