module verif.local/sim

go 1.26.2
