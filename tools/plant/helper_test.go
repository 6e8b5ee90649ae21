package semnet

import (
	"errors"
	"fmt"
	"sort"
)

// demoStore keeps nodes in memory. It can fail at one call, list links in
// descending order and record what it is asked to do.
type demoStore struct {
	next    uint
	back    map[uint]uint
	forth   map[uint]uint
	targets map[uint][]uint
	sources map[uint][]uint
	calls   int
	failAt  int
	failed  bool
	reverse bool
	log     []string
	changes []string
}

var errDemo = errors.New("demo storage failure")

func newDemoStore() *demoStore {
	return &demoStore{
		back:    map[uint]uint{},
		forth:   map[uint]uint{},
		targets: map[uint][]uint{},
		sources: map[uint][]uint{},
	}
}

func (s *demoStore) copy() *demoStore {
	c := newDemoStore()
	c.next = s.next
	for k, v := range s.back {
		c.back[k] = v
	}
	for k, v := range s.forth {
		c.forth[k] = v
	}
	for k, v := range s.targets {
		c.targets[k] = append([]uint{}, v...)
	}
	for k, v := range s.sources {
		c.sources[k] = append([]uint{}, v...)
	}
	return c
}

func (s *demoStore) dump() string {
	lines := []string{}
	for i := uint(1); i <= s.next; i++ {
		lines = append(lines, fmt.Sprint(i, s.back[i], s.forth[i], s.targets[i], s.sources[i]))
	}
	return fmt.Sprint(lines)
}

func (s *demoStore) call(change bool, format string, args ...interface{}) error {
	s.calls++
	line := fmt.Sprintf(format, args...)
	s.log = append(s.log, line)
	if s.calls == s.failAt {
		s.failed = true
		return errDemo
	}
	if change {
		s.changes = append(s.changes, line)
	}
	return nil
}

func (s *demoStore) known(ids ...uint) error {
	for _, id := range ids {
		if id == 0 || id > s.next {
			return fmt.Errorf("no node %d", id)
		}
	}
	return nil
}

func (s *demoStore) Has(source uint) (bool, error) {
	if err := s.call(false, "Has %d", source); err != nil {
		return false, err
	}
	return s.known(source) == nil, nil
}

func (s *demoStore) Create() (uint, error) {
	if err := s.call(true, "Create"); err != nil {
		return 0, err
	}
	s.next++
	return s.next, nil
}

func (s *demoStore) list(m []uint) []uint {
	l := append([]uint{}, m...)
	if s.reverse {
		sort.Slice(l, func(i, j int) bool { return l[i] > l[j] })
	}
	return l
}

func (s *demoStore) ReadSources(target uint) ([]uint, error) {
	if err := s.call(false, "ReadSources %d", target); err != nil {
		return nil, err
	}
	if err := s.known(target); err != nil {
		return nil, err
	}
	return s.list(s.sources[target]), nil
}

func (s *demoStore) ReadTargets(source uint) ([]uint, error) {
	if err := s.call(false, "ReadTargets %d", source); err != nil {
		return nil, err
	}
	if err := s.known(source); err != nil {
		return nil, err
	}
	return s.list(s.targets[source]), nil
}

func (s *demoStore) SetReference(source uint, reference uint) error {
	if err := s.call(true, "SetReference %d %d", source, reference); err != nil {
		return err
	}
	if err := s.known(source, reference); err != nil {
		return err
	}
	s.forth[source] = reference
	s.back[reference] = source
	return nil
}

func (s *demoStore) GetReference(source uint) (uint, uint, error) {
	if err := s.call(false, "GetReference %d", source); err != nil {
		return 0, 0, err
	}
	if err := s.known(source); err != nil {
		return 0, 0, err
	}
	return s.back[source], s.forth[source], nil
}

func (s *demoStore) Connect(source uint, target uint) error {
	if err := s.call(true, "Connect %d %d", source, target); err != nil {
		return err
	}
	if err := s.known(source, target); err != nil {
		return err
	}
	for _, t := range s.targets[source] {
		if t == target {
			return nil
		}
	}
	s.targets[source] = append(s.targets[source], target)
	s.sources[target] = append(s.sources[target], source)
	return nil
}

func without(l []uint, x uint) []uint {
	r := []uint{}
	for _, y := range l {
		if y != x {
			r = append(r, y)
		}
	}
	return r
}

func (s *demoStore) Disconnect(source uint, target uint) error {
	if err := s.call(true, "Disconnect %d %d", source, target); err != nil {
		return err
	}
	s.targets[source] = without(s.targets[source], target)
	s.sources[target] = without(s.sources[target], source)
	return nil
}

func (s *demoStore) Delete(source uint) error {
	return s.call(true, "Delete %d", source)
}
