edits=[("src/objectserver/internal/usecase/service/objects_service.go","""				return fmt.Errorf("diable direct-io: %w", err)
			}
		}
		if _, err = file.Seek(offset, io.SeekStart); err != nil {
			return err
		}
	}
""","""				return fmt.Errorf("diable direct-io: %w", err)
			}
			if _, err = file.Seek(offset, io.SeekStart); err != nil {
				return err
			}
		} else if _, err = file.Seek(offset/int64(cst.OS.PageSize), io.SeekStart); err != nil {
			return err
		}
	}
""")]
needs="a range that starts at a multiple of the block size, uncompressed and not in the cache"
breaks="Other bytes than the requested ones are returned."
demo='''package service

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "f")
	data := make([]byte, 20000)
	for i := range data {
		data[i] = byte(i / 100)
	}
	if err := os.WriteFile(p, data, 0600); err != nil {
		t.Fatal(err)
	}
	for _, off := range []int64{0, 4096, 8192} {
		var buf bytes.Buffer
		_ = GetFile(p, off, 20000-off, &buf)
		if !bytes.Equal(buf.Bytes(), data[off:]) {
			t.Fatal("wrong bytes from ", off)
		}
	}
}
'''
