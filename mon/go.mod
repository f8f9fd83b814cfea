module goclj.verif/mon

go 1.24

require github.com/cespare/goclj v0.0.0

replace github.com/cespare/goclj => /repo
