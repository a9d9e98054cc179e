edits=[("src/objectserver/internal/usecase/service/migration_service.go","""	avg := int64(math.Ceil(total / float64(size)))""","""	avg := int64(math.Floor(total / float64(size)))""")]
needs="a server that leaves, with an amount of data that cannot be divided by the number of the others"
breaks="The plan of a leaving server covers less than it has, shards stay on it and become unavailable."
demo='''package service

import (
	"net/http"
	"net/http/httptest"
	"objectserver/config"
	"objectserver/internal/db"
	"objectserver/internal/usecase/pool"
	"strings"
	"testing"
)

type demoServices []string

func (d demoServices) GetServices(string) []string                { return d }
func (d demoServices) GetServiceMapping(string) map[string]string { return nil }
func (d demoServices) GetServiceMappingWith(string, bool) map[string]string {
	return nil
}
func (d demoServices) GetService(string, string) (string, bool) { return "127.0.0.1:1", true }

func TestDemo(t *testing.T) {
	var ds demoServices
	for i := 0; i < 2; i++ {
		s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.Header().Set("Capacity", "0")
		}))
		defer s.Close()
		ds = append(ds, strings.TrimPrefix(s.URL, "http://"))
	}
	pool.Config = &config.Config{}
	pool.Config.Registry.ServerID, pool.Config.Registry.ServerPort, pool.Config.Registry.ServerIP = "s1", "1", "127.0.0.1"
	pool.Discovery = ds
	pool.ObjectCap = db.NewObjectCapacity()
	for own := int64(1); own < 8; own++ {
		pool.ObjectCap.AddCap(1)
		plan, err := NewMigrationService(pool.ObjectCap).DeviationValues(false)
		var sum int64
		for _, v := range plan {
			sum += v
		}
		if err != nil || sum < own {
			t.Fatal(own, plan, err)
		}
	}
}
'''
