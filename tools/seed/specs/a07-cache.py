F='src/apiserver/internal/usecase/componet/auth/password_validator.go'
edits=[(F,'''	cli clientv3.KV
	cfg *PasswordConfig
}''','''	cli clientv3.KV
	cfg *PasswordConfig

	last credential.AdminCredential // the last one that matched
}'''),(F,'''	pv := &PasswordValidator{cli, cfg}''','''	pv := &PasswordValidator{cli: cli, cfg: cfg}'''),
(F,'''func (pv *PasswordValidator) Verify(token Credential) error {
''','''func (pv *PasswordValidator) Verify(token Credential) error {
	if pv.last.Username != "" && token.GetUsername() == pv.last.Username && token.GetPassword() == pv.last.Password {
		return nil
	}
'''),(F,'''		return response.NewError(http.StatusUnauthorized, "username or password wrong")
	}
	return nil''','''		return response.NewError(http.StatusUnauthorized, "username or password wrong")
	}
	pv.last = admin
	return nil''')]
needs='a credential that is changed after it was used'
breaks='The former password is accepted until the server restarts.'
demo='''package auth

import (
	"apiserver/internal/usecase/componet/auth/credential"
	"common/util"
	"context"
	"testing"

	mvccpb "go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

type demoKV struct {
	clientv3.KV
	val []byte
}

func (k *demoKV) Get(context.Context, string, ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	return &clientv3.GetResponse{Kvs: []*mvccpb.KeyValue{{Value: k.val}}}, nil
}

func TestDemo(t *testing.T) {
	k := &demoKV{}
	set := func(u, p string) {
		k.val, _ = util.EncodeMsgp(&credential.AdminCredential{Username: u, Password: p})
	}
	set("a", "old")
	pv := NewPasswordValidator(k, &PasswordConfig{Enable: true})
	if err := pv.Verify(credential.NewPasswordToken("a", "old")); err != nil {
		t.Fatal(err)
	}
	set("a", "new")
	if err := pv.Verify(credential.NewPasswordToken("a", "new")); err != nil {
		t.Fatal(err)
	}
	set("a", "newer")
	for _, p := range []string{"old", "new"} {
		if pv.Verify(credential.NewPasswordToken("a", p)) == nil {
			t.Fatal("former password is accepted:", p)
		}
	}
}
'''
