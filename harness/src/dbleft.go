//go:build go1.22

package main

import (
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/juju/fslock"

	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
)

// ------------------------------------------------------------------- D16

// leftWatch follows what may lie in the databases' folder: the databases, and
// the working files of those whose last commit did not succeed.
type leftWatch struct {
	w       *dbWorld
	commits map[string]int
	dirty   map[string]bool
	hostile bool
}

func (l *leftWatch) look() {
	w, c := l.w, l.w.c
	if _, err := os.Stat(w.dir); err != nil {
		return
	}
	for name, db := range w.dbs {
		if n := len(db.commits); n > l.commits[name] {
			l.commits[name] = n
			if l.dirty[name] {
				c.Count("commits that cleaned up after failed ones", 1)
			}
			l.dirty[name] = false
		}
	}
	for name := range l.commits {
		if _, ok := w.dbs[name]; !ok {
			l.commits[name] = 0 // deleted
		}
	}
	failing := l.hostile || strings.Contains(w.lastOp, " writes with ") || strings.Contains(w.lastOp, "deleted") || w.bck == dbDst
	for _, n := range w.names {
		if l.hostile || failing && strings.HasPrefix(w.lastOp, "Commit(") && strings.Contains(w.lastOp, " "+n+")") {
			l.dirty[n] = true
		}
	}
	es, err := os.ReadDir(w.dir)
	must(err)
	seen := 0
	for _, e := range es {
		name := e.Name()
		if _, ok := w.dbs[name]; ok || name == w.sub {
			continue
		}
		owner := strings.TrimSuffix(strings.TrimSuffix(name, "."+dbDst), "."+w.bck)
		if owner != name && l.dirty[owner] {
			seen++
			continue
		}
		c.Violate("left", "after %s the folder of the databases holds %q, which is no database (chunk size %d, folder: %s)", w.lastOp, name, w.chunk, dirNames(w.dir))
	}
	c.Count("times the folder was looked at", 1)
	c.Count("working files of failed commits seen", seen)
	// nothing is locked
	names := []string{}
	for name := range w.dbs {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		if err := lockable(filepath.Join(w.dir, name)); err != nil {
			c.Violate("locked", "after %s the database %s cannot be locked by another program: %v", w.lastOp, name, err)
		}
		c.Count("databases found unlocked", 1)
	}
}

// lockable tells whether another program can lock the file, for a commit
func lockable(path string) error {
	if info, err := os.Stat(path); err != nil || !info.Mode().IsRegular() {
		return nil
	}
	lock := fslock.New(path)
	if err := lock.TryLock(); err != nil {
		return err
	}
	return lock.Unlock()
}

func runLeft(c *Ctx) {
	switch c.Index % 100 {
	case 98:
		runCrash(c)
		return
	case 99:
		runFaults(c)
		return
	}
	w := newWorld(c)
	w.dir, _ = filepath.EvalSymlinks(w.dir)
	w.app = files.NewApplication(w.mv, w.dir, dbDst, w.bck, w.chunk)
	w.keepsTemp = true
	l := &leftWatch{w: w, commits: map[string]int{}, dirty: map[string]bool{}}
	w.each = func() {
		l.look()
		if w.r.Intn(5) == 0 {
			l.hostile = true
			w.lastOp = ""
			w.doHostile()
			l.look()
			l.hostile = false
		}
	}
	w.run(profile{steps: 16 + w.r.Intn(34), names: 2 + w.r.Intn(2), new_: 5, exists: 1, delete_: 2, open: 20, close_: 6, write: 24, commit: 22, cancel: 2, restart: 2, invalid: 2})
	w.lastOp = "closing all contexts"
	l.look()
}

// leftAfter judges the folder after a crash or a fault and one more commit.
func (s *fScenario) leftAfter(c *Ctx, dir, what string) {
	es, err := os.ReadDir(dir)
	must(err)
	for _, e := range es {
		if e.Name() != s.name {
			c.Violate("left-fault", "%s (%s), and after another commit that succeeded the folder still holds %q", what, describe(s), e.Name())
		}
	}
	if err := lockable(filepath.Join(dir, s.name)); err != nil {
		c.Violate("locked-fault", "%s (%s), and then the database cannot be locked: %v", what, describe(s), err)
	}
	c.Count("folders looked at after a fault and a commit", 1)
}

func init() {
	register(&Prop{
		ID: "D16",
		Rule: "random operation histories with commits that fail because of their surroundings (locks held, folders in the way, a full disk, other sessions' commits); after each operation the folder is listed: it may hold the databases and the working files of databases whose last commit failed, and every database can be locked at once; two cases in a hundred kill a commit at each of its system calls, or makes each fail, commits again and lists the folder; " +
			"non-trivial: at least two commits survive to the end, or a fault was injected; distinct: chunk size and sequence of operation kinds, or fault point",
		Cases: func(t string) int { return map[string]int{"quick": 1800, "thorough": 40000}[t] },
		Run:   runLeft,
		Hang:  300 * time.Second,
	})
}
