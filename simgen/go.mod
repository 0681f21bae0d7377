module verif/simgen

go 1.24
