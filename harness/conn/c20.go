// Package conn decides what the adapters open their connection with: the data source
// name or connector given to database/sql, as the driver reads it.
package conn

import (
	"database/sql"
	sqldriver "database/sql/driver"
	"net/url"
	"os"
	"strconv"
	"strings"

	driver "github.com/go-sql-driver/mysql"
	"github.com/k0kubun/sqldef/adapter"
	"github.com/k0kubun/sqldef/adapter/mssql"
	"github.com/k0kubun/sqldef/adapter/mysql"
	"github.com/k0kubun/sqldef/adapter/postgres"
	"github.com/k0kubun/sqldef/adapter/sqlite3"
	"github.com/k0kubun/sqldef/zverif/kit"
	"github.com/k0kubun/sqldef/zverif/sym"
	"github.com/lib/pq"
)

// open opens a database and is what it asked database/sql for.
func open(f func(adapter.Config) (adapter.Database, error), c adapter.Config) (name, dsn string, conn sqldriver.Connector) {
	opened := 0
	s := kit.NewServer(kit.NewDB(kit.My))
	sql.VerifOpen = func(d, n string) (sql.VerifServer, error) {
		name, dsn = d, n
		opened++
		return s, nil
	}
	sql.VerifOpenDB = func(c sqldriver.Connector) (sql.VerifServer, error) {
		conn = c
		opened++
		return s, nil
	}
	d, err := f(c)
	sym.Assert(err == nil, "a configuration is refused")
	sym.Assert(opened == 1 && d != nil, "not one connection is made")
	sql.VerifOpenDB = nil
	return name, dsn, conn
}

// special is made of what separates the parts of data source names.
const special = "a:b@c/d?e=f&g#h%41+i 'j\"k\\l(m)[n]{o};p,q=`r"

// config has one part of n arbitrary bytes, the others are special or plain.
func config(n int, part int, rest string) adapter.Config {
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte()
	}
	c := adapter.Config{User: rest, Password: rest, DbName: rest, Host: "host", Port: 1234}
	switch part {
	case 0:
		sym.Tag("user")
		c.User = string(b)
	case 1:
		sym.Tag("password")
		c.Password = string(b)
	case 2:
		sym.Tag("database")
		c.DbName = string(b)
	case 3:
		sym.Tag("socket")
		c.Socket = "/" + string(b)
	case 4:
		sym.Tag("host")
		for i := range b {
			b[i] = sym.ByteIn("az09.-_")
		}
		c.Host = string(b)
	case 5:
		sym.Tag("port")
		c.Port = sym.Int(1, 65535)
	}
	return c
}

func rest() string {
	if sym.Choice(2) == 0 {
		return "plain"
	}
	return special
}

func HC20My() {
	c := config(1+sym.Choice(3), sym.Choice(6), rest())
	_, dsn, conn := open(mysql.NewDatabase, c)
	var got *driver.Config
	if conn != nil {
		got, _ = sym.Field(conn, "cfg").(*driver.Config)
	} else {
		var err error
		got, err = driver.ParseDSN(dsn)
		sym.Assert(err == nil, "the driver does not understand the data source name")
	}
	sym.Assert(got != nil, "the driver is given no configuration")
	sym.Assert(got.User == c.User, "another user connects")
	sym.Assert(got.Passwd == c.Password, "another password is used")
	sym.Assert(got.DBName == c.DbName, "another database is used")
	if c.Socket != "" {
		sym.Assert(got.Net == "unix" && got.Addr == c.Socket, "another socket is used")
	} else {
		sym.Assert(got.Net == "tcp" && got.Addr == c.Host+":"+strconv.Itoa(c.Port), "another server is used")
	}
	// What the driver takes by default.
	d := driver.NewConfig()
	sym.Assert(!got.AllowAllFiles && !got.AllowCleartextPasswords && !got.AllowOldPasswords && got.AllowNativePasswords && !got.InterpolateParams && !got.MultiStatements && !got.ParseTime && !got.ClientFoundRows && got.TLSConfig == "" && len(got.Params) == 0 &&
		got.Collation == d.Collation && got.MaxAllowedPacket == d.MaxAllowedPacket && got.Timeout == 0 && got.ReadTimeout == 0, "an option of the connection is changed")
	sym.Cover("end")
}

// keyValues reads key='value' pairs as libpq does.
func keyValues(s string) map[string]string {
	m := map[string]string{}
	i := 0
	for i < len(s) {
		if s[i] == ' ' {
			i++
			continue
		}
		j := i
		for j < len(s) && s[j] != '=' {
			j++
		}
		key := strings.TrimRight(s[i:j], " ")
		i = j + 1
		for i < len(s) && s[i] == ' ' {
			i++
		}
		var v []byte
		quoted := i < len(s) && s[i] == '\''
		if quoted {
			i++
		}
		for i < len(s) {
			c := s[i]
			if quoted && c == '\'' {
				i++
				break
			}
			if !quoted && c == ' ' {
				break
			}
			if c == '\\' && i+1 < len(s) {
				i++
				c = s[i]
			}
			v = append(v, c)
			i++
		}
		m[key] = string(v)
	}
	return m
}

func HC20Pg()  { pg(2) }
func HC20Pg3() { pg(3) }

func pg(most int) {
	env := sym.Choice(4)
	n := 1
	if env == 0 {
		n += sym.Choice(most)
	}
	part := 5
	if env < 3 {
		part = sym.Choice(6)
	}
	c := config(n, part, rest())
	want := map[string]string{"user": c.User, "password": c.Password, "dbname": c.DbName, "host": c.Host, "port": strconv.Itoa(c.Port)}
	if c.Socket != "" {
		want["host"] = c.Socket
	}
	if env > 0 {
		os.Setenv("PGSSLMODE", "require")
		want["sslmode"] = "require"
	} else {
		os.Unsetenv("PGSSLMODE")
	}
	os.Unsetenv("PGSSLROOTCERT")
	switch env {
	case 2:
		os.Setenv("PGSSLROOTCERT", "/a&sslmode=disable b%41+")
		want["sslrootcert"] = "/a&sslmode=disable b%41+"
	case 3:
		x := string([]byte{sym.ByteRange(1, 255)})
		os.Setenv("PGSSLROOTCERT", "/"+x)
		want["sslrootcert"] = "/" + x
	}
	name, dsn, conn := open(postgres.NewDatabase, c)
	if conn != nil {
		o, _ := sym.Field(conn, "opts").(map[string]string)
		sym.Assert(o != nil, "the driver is given no configuration")
		for k, v := range want {
			sym.Assert(o[k] == v, "the connection is made with another value")
		}
		sym.Cover("end")
		return
	}
	sym.Assert(name == "postgres", "another driver is used")
	sym.Dump(dsn)
	kv := dsn
	if strings.HasPrefix(dsn, "postgres://") || strings.HasPrefix(dsn, "postgresql://") {
		var err error
		kv, err = pq.ParseURL(dsn)
		sym.Assert(err == nil, "the driver does not understand the data source name")
	}
	got := keyValues(kv)
	sym.Assert(got["user"] == want["user"], "another user connects")
	sym.Assert(got["password"] == want["password"], "another password is used")
	sym.Assert(got["dbname"] == want["dbname"], "another database is used")
	sym.Assert(got["host"] == want["host"], "another server is used")
	sym.Assert(got["port"] == want["port"], "another port is used")
	sym.Assert(got["sslmode"] == want["sslmode"] && got["sslrootcert"] == want["sslrootcert"], "another encryption is asked for")
	sym.Assert(len(got) == len(want), "an option of the connection is changed")
	sym.Cover("end")
}

func HC20Ms() {
	part := sym.Choice(5)
	if part >= 3 {
		part++
	}
	c := config(1+sym.Choice(2), part, rest())
	name, dsn, conn := open(mssql.NewDatabase, c)
	sym.Dump(dsn)
	if conn != nil {
		sym.Cover("end") // what is in it cannot be read
		return
	}
	sym.Assert(name == "sqlserver" || name == "mssql", "another driver is used")
	u, err := url.Parse(dsn)
	sym.Assert(err == nil && u.Scheme == "sqlserver" && u.User != nil, "the driver does not understand the data source name")
	p, ok := u.User.Password()
	sym.Assert(u.User.Username() == c.User, "another user connects")
	sym.Assert(ok && p == c.Password, "another password is used")
	sym.Assert(u.Host == c.Host+":"+strconv.Itoa(c.Port) && u.Path == "", "another server is used")
	q := u.Query()
	sym.Assert(len(q) == 1 && len(q["database"]) == 1 && q["database"][0] == c.DbName, "another database is used")
	sym.Cover("end")
}

// HC20Lite: a file; a name with a question mark is a file and options for the driver.
func HC20Lite() {
	b := []byte{sym.Byte(), sym.Byte(), sym.Byte()}
	name, dsn, _ := open(sqlite3.NewDatabase, adapter.Config{DbName: string(b)})
	sym.Assert(name == "sqlite3", "another driver is used")
	sym.Assert(dsn == string(b), "another file is opened")
	sym.Cover("end")
}
