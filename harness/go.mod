module verifharness

go 1.24

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/danomagnum/gologix v0.0.0
)

require github.com/npat-efault/crc16 v0.0.0-20161013170008-4128ccbe47c3 // indirect

replace github.com/danomagnum/gologix => /repo
