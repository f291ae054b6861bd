module verifharness

go 1.26.0

require (
	github.com/ProtonMail/go-rfc5322 v0.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/antlr/antlr4/runtime/Go/antlr v0.0.0-20220816024939-bc8df83d7b9d // indirect

replace github.com/ProtonMail/go-rfc5322 => /repo
