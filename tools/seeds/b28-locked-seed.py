id='b28-locked-seed'
prop='C02'
pkg='base'
needs='a locked source is seeded while it is in use'
breaks='seeding a locked source races with drawing from it'
race=True
edits=[('base/source.go', 'func (s *LockedSource) Seed(seed uint64) {\n\ts.lk.Lock()\n\ts.src.Seed(seed)\n\ts.lk.Unlock()\n', 'func (s *LockedSource) Seed(seed uint64) {\n\ts.src.Seed(seed)\n')]
test=r'''package base
import ("testing";"sync")
func TestDemo(t *testing.T) {
	s := NewLockedSource(1)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 300; k++ {
				if i == 0 { s.Seed(uint64(k)) } else { s.Uint64() }
			}
		}(i)
	}
	wg.Wait()
}
'''
