module verif.local/v

go 1.18

require (
	github.com/smartbch/moeingads v0.0.0
	github.com/tecbot/gorocksdb v0.0.0-20191217155057-f0fad39f321c
)

replace github.com/smartbch/moeingads => /repo

replace verif.local/w => ../w
