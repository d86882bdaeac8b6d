module github.com/tecbot/gorocksdb

go 1.18

require verif.local/w v0.0.0
