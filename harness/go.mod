module vharness

go 1.26

require github.com/ZZMarquis/gm v0.0.0

replace github.com/ZZMarquis/gm => /repo
