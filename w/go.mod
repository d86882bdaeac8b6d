module verif.local/w

go 1.18
