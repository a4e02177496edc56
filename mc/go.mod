module verif/mc

go 1.16

require github.com/mmcloughlin/ssarules v0.0.0

replace github.com/mmcloughlin/ssarules => /repo
