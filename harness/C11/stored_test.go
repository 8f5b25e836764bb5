// gv:pkg .
package riot

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"
	"reflect"
	"sort"
	"testing"

	"github.com/go-ego/murmur"
	"github.com/go-ego/riot/types"
)

func sdata(c *gvCase, n int) types.DocData {
	d := types.DocData{Content: fmt.Sprintf("content of version %d", n)}
	if c.Intn(3) == 0 {
		d.Content = ""
	}
	for _, k := range c.Perm(len(ekeys))[:1+c.Intn(4)] {
		p := c.Intn(5)
		d.Tokens = append(d.Tokens, types.TokenData{Text: ekeys[k], Locations: []int{p, p + 3}})
	}
	if c.Intn(2) == 0 {
		d.Labels = append(d.Labels, epick(c, elabels))
	}
	d.Attri = []interface{}{nil, "at", n, []byte("b")}[c.Intn(4)]
	d.Fields = []interface{}{nil, "fields", n, 2.5}[c.Intn(4)]
	return d
}

type smodel struct {
	c    *gvCase
	e    *Engine
	opts types.EngineOpts
	docs map[string]types.DocData
	ids  []string
}

func (m *smodel) start() {
	o := m.opts
	m.c.logf("start: %d shards, %d store partitions, engine %q", o.NumShards, o.StoreShards, o.StoreEngine)
	gvDeath(m.c)
	io := *o.IndexerOpts
	o.IndexerOpts = &io
	ro := *o.DefRankOpts
	o.DefRankOpts = &ro
	m.e = new(Engine)
	m.e.Init(o)
}

func (m *smodel) change(n int) {
	c := m.c
	for i := 0; i < n; i++ {
		force := c.Intn(5) == 0
		if c.Intn(12) == 0 {
			c.logf("Index/RemoveDoc(\"0\", true)")
			gvDeath(c)
			if c.Intn(2) == 0 {
				m.e.Index("0", types.DocData{Content: "nothing"}, true)
			} else {
				m.e.RemoveDoc("0", true)
			}
			continue
		}
		id := epick(c, m.ids)
		if c.Intn(4) == 0 {
			c.logf("RemoveDoc(%q, %v)", id, force)
			gvDeath(c)
			m.e.RemoveDoc(id, force)
			delete(m.docs, id)
			continue
		}
		d := sdata(c, i)
		c.logf("Index(%q, %+v, %v)", id, d, force)
		gvDeath(c)
		if c.Intn(2) == 0 {
			m.e.Index(id, d, force)
		} else {
			m.e.IndexDoc(id, d, force)
		}
		m.docs[id] = d
	}
	m.e.Flush()
	c.logf("flushed")
}

// stored compares the partitions with the documents.
func (m *smodel) stored() {
	c := m.c
	if len(m.e.dbs) != m.opts.StoreShards {
		c.failf("%d partitions are open, %d are configured", len(m.e.dbs), m.opts.StoreShards)
	}
	n := 0
	for s, db := range m.e.dbs {
		err := db.ForEach(func(k, v []byte) error {
			id := string(k)
			n++
			d, ok := m.docs[id]
			if !ok {
				c.failf("partition %d holds %q, which is not indexed", s, id)
			}
			if want := int(murmur.Sum32(id) % uint32(m.opts.StoreShards)); want != s {
				c.failf("partition %d holds %q, which belongs in partition %d", s, id, want)
			}
			var got types.DocData
			if err := gob.NewDecoder(bytes.NewReader(v)).Decode(&got); err != nil {
				c.failf("the data of %q does not decode: %v", id, err)
			}
			if !reflect.DeepEqual(got, d) {
				c.failf("%q is stored with %+v, want %+v", id, got, d)
			}
			return nil
		})
		if err != nil {
			c.failf("partition %d: %v", s, err)
		}
	}
	if n != len(m.docs) {
		c.failf("%d documents are stored, want %d", n, len(m.docs))
	}
	for _, id := range append([]string{"0", "none"}, m.ids...) {
		_, want := m.docs[id]
		if got := m.e.HasDocDB(id); got != want {
			c.failf("HasDocDB(%q) = %v, want %v", id, got, want)
		}
	}
	var all []string
	for id := range m.docs {
		all = append(all, id)
	}
	sort.Strings(all)
	ids := m.e.GetDBAllIds()
	sort.Strings(ids)
	if len(ids) != len(all) || len(all) > 0 && !reflect.DeepEqual(ids, all) {
		c.failf("GetDBAllIds() = %q, want %q", ids, all)
	}
	ids, data := m.e.GetDBAllDocs()
	if len(ids) != len(all) || len(data) != len(all) {
		c.failf("GetDBAllDocs() has %d ids and %d documents, want %d", len(ids), len(data), len(all))
	}
	for k, id := range ids {
		if d, ok := m.docs[id]; !ok || !reflect.DeepEqual(data[k], d) {
			c.failf("GetDBAllDocs() has %q with %+v, want %+v", id, data[k], d)
		}
	}
}

// searchable compares what a freshly started engine finds with the documents.
func (m *smodel) searchable() {
	c := m.c
	m.e.Flush()
	for _, id := range m.ids {
		if _, want := m.docs[id]; m.e.HasDoc(id) != want {
			c.failf("after the restart HasDoc(%q) = %v, want %v", id, !want, want)
		}
	}
	for _, k := range append(append([]string{}, ekeys...), elabels...) {
		resp := m.e.Search(types.SearchReq{Tokens: []string{k}, RankOpts: &types.RankOpts{MaxOutputs: 1000}})
		want := map[string]types.DocData{}
		for id, d := range m.docs {
			for _, t := range d.Tokens {
				if t.Text == k {
					want[id] = d
				}
			}
			for _, l := range d.Labels {
				if l == k {
					want[id] = d
				}
			}
		}
		got, _ := resp.Docs.(types.ScoredDocs)
		if len(got) != len(want) {
			c.failf("after the restart %d documents have key %q, want %d: %v", len(got), k, len(want), want)
		}
		for _, g := range got {
			w, ok := want[g.DocId]
			if !ok || g.Content != w.Content || !reflect.DeepEqual(g.Attri, w.Attri) || !reflect.DeepEqual(g.Fields, w.Fields) {
				c.failf("after the restart key %q finds %+v, want %+v", k, g, w)
			}
		}
	}
}

func TestVerifC11(t *testing.T) {
	gvRun(t, "C11", func(c *gvCase) {
		dir, err := os.MkdirTemp("", "gvc11")
		if err != nil {
			t.Skip(err)
		}
		defer os.RemoveAll(dir)
		m := &smodel{c: c, docs: map[string]types.DocData{}}
		m.opts = types.EngineOpts{NotUseGse: true, NumShards: 1 + c.Intn(4), UseStore: true, StoreFolder: dir + "/s",
			StoreShards: 1 + c.Intn(5), StoreEngine: []string{"", "ldb", "bolt"}[c.Intn(3)],
			IndexerOpts: &types.IndexerOpts{IndexType: c.Intn(3), DocCacheSize: 1 + c.Intn(4)},
			DefRankOpts: &types.RankOpts{}}
		for i := 0; i < 1+c.Intn(16); i++ {
			m.ids = append(m.ids, []string{"d%d", "%d-文", "k\x00%d"}[c.Intn(3)])
			m.ids[i] = fmt.Sprintf(m.ids[i], i+1)
		}
		m.start()
		m.change(c.Intn(25))
		m.stored()
		if c.Intn(2) == 0 {
			m.change(c.Intn(10))
			m.stored()
		}
		for k := c.Intn(3); k >= 0; k-- {
			c.logf("close")
			gvDeath(c)
			m.e.Close()
			m.opts.NumShards = 1 + c.Intn(4)
			m.start()
			m.searchable()
			m.stored()
			if k > 0 {
				m.change(c.Intn(8))
				m.stored()
			}
		}
		m.e.Close()
	})
}
