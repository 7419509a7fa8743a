SCPT = '''
package scpsync

import (
	"bytes"
	"io"
	"strings"
	"testing"
)

type remote struct {
	io.Reader
	io.Writer
}

// started keeps its effects in memory.
func recvd(data string) (scpFile, error) {
	return readFile(remote{strings.NewReader(data), new(bytes.Buffer)})
}
'''
seed("b39-truncated-download", "C29",
 "the connection ends in the middle of a download, at a point before the last byte",
 "a download of which only the beginning arrived counts as done; the rest of the file is zero bytes",
 [("scpsync/scpsync.go", """	if n, err := io.ReadFull(reader, file.Contents); err != nil {
		return file, err
	} else if int64(n) != length+1 {
""", """	if n, err := io.ReadAtLeast(reader, file.Contents, 1); err != nil {
		return file, err
	} else if n > len(file.Contents) {
""")], pkg="scpsync", test=SCPT + '''
func TestDemo(t *testing.T) {
	f, err := recvd("C0600 5 f\\nhello\\x00")
	if err != nil || string(f.Contents) != "hello" {
		t.Fatal(f, err)
	}
	if f, err := recvd("C0600 5 f\\nhel"); err == nil {
		t.Fatalf("half a file counts as a whole one: %q", f.Contents)
	}
}
''')
seed("b40-warning-is-success", "C29",
 "the remote answers an upload with a warning, which is how a write that failed is reported",
 "an upload that the remote could not write counts as done",
 [("scpsync/scpsync.go", """	case 0:
		return nil
	case 1, 2:
""", """	case 0, 1:
		return nil
	case 2:
""")], pkg="scpsync", test=SCPT + '''
func TestDemo(t *testing.T) {
	send := func(answer string) error {
		return sendFile(remote{strings.NewReader(answer), new(bytes.Buffer)}, strings.NewReader("hello"), "f", 5, 0o600)
	}
	if err := send("\\x00"); err != nil {
		t.Fatal(err)
	}
	if send("\\x01scp: f: No space left on device\\n") == nil {
		t.Fatal("an upload that failed counts as done")
	}
}
''')
