module katiemc

go 1.25

require (
	filippo.io/edwards25519 v1.1.0
	filippo.io/nistec v0.0.3
	github.com/Bren2010/katie v0.0.0
	github.com/syndtr/goleveldb v1.0.0
)

require (
	github.com/golang/snappy v0.0.0-20180518054509-2e65f85255db // indirect
	golang.org/x/net v0.0.0-20220225172249-27dd8689420f // indirect
	golang.org/x/sys v0.0.0-20220520151302-bc2c85ada10a // indirect
	gopkg.in/yaml.v2 v2.4.0 // indirect
)

replace github.com/Bren2010/katie => /repo
