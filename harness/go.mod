module verif/harness

go 1.21

require github.com/go-ini/ini v0.0.0

replace github.com/go-ini/ini => ../build/ini
