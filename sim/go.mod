module verif

go 1.23

require github.com/VolantMQ/vlapi v0.0.0

replace github.com/VolantMQ/vlapi => ./.vlapi
