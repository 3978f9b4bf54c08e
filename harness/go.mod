module github.com/tylantz/go-tailwind-merge/verifharness

go 1.22

require (
	github.com/tdewolff/parse/v2 v2.7.11
	github.com/tylantz/go-tailwind-merge v0.0.0
	golang.org/x/net v0.21.0
)

replace github.com/tylantz/go-tailwind-merge => /repo
