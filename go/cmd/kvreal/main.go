// Command kvreal runs the key-value exploration on the real RocksDB.
package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strconv"
	"time"

	"github.com/smartbch/moeingads/indextree"
	"github.com/tecbot/gorocksdb"
	"verif.local/v/kvt"
)

type out struct {
	kvt.Res
	Dumps []string
	Done  bool
}

func main() {
	dir := os.Args[1]
	p, _ := strconv.Atoi(os.Args[2])
	parts, _ := strconv.Atoi(os.Args[3])
	secs, _ := strconv.Atoi(os.Args[4])
	end := time.Now().Add(time.Duration(secs) * time.Second)
	open := func(n string) kvt.KV {
		d, err := indextree.NewRocksDB(n, dir)
		if err != nil {
			panic(err)
		}
		return d.(kvt.KV)
	}
	var o out
	n := 0
	o.Done = true
	o.Res = kvt.Explore(func() kvt.KV {
		_ = os.RemoveAll(filepath.Join(dir, "x"+strconv.Itoa(n)+".db"))
		n++
		return open("x" + strconv.Itoa(n))
	}, p, parts, len(os.Args) > 5, func() bool {
		if time.Now().After(end) {
			o.Done = false
			return true
		}
		return false
	})
	if p == 0 {
		for i, h := range []uint64{0, 1, 6, 256, 1 << 41} {
			n := "c" + strconv.Itoa(i)
			db := open(n)
			o.Dumps = append(o.Dumps, kvt.Compacted(db, h, func() {
				db.(interface{ DB() *gorocksdb.DB }).DB().CompactRange(gorocksdb.Range{})
			}))
			db.Close()
			_ = os.RemoveAll(filepath.Join(dir, n+".db"))
		}
	}
	_ = json.NewEncoder(os.Stdout).Encode(o)
}
