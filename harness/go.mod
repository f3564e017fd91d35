module verif/harness

go 1.21

require github.com/HannesKimara/cddlc v0.0.0

replace github.com/HannesKimara/cddlc => /repo
