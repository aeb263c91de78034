module verif/sim

go 1.23

require github.com/lkmio/avformat v0.0.0

replace github.com/lkmio/avformat => /nonexistent
