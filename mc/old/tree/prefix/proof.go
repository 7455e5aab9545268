package prefix

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"

	"katiemc/old/crypto/suites"
)

const (
	inclusionResultType uint8 = iota + 1
	nonInclusionLeafResultType
	nonInclusionParentResultType
)

// PrefixProof is the output of executing a batch search in the tree.
type PrefixProof struct {
	Results  []PrefixSearchResult
	Elements [][]byte
}

func NewPrefixProof(cs suites.CipherSuite, buf *bytes.Buffer) (*PrefixProof, error) {
	numResults, err := buf.ReadByte()
	if err != nil {
		return nil, err
	}
	results := make([]PrefixSearchResult, numResults)
	for i := range int(numResults) {
		result, err := unmarshalSearchResult(cs, buf)
		if err != nil {
			return nil, err
		}
		results[i] = result
	}

	var numElements uint16
	if err := binary.Read(buf, binary.BigEndian, &numElements); err != nil {
		return nil, err
	}
	elements := make([][]byte, numElements)
	for i := range int(numElements) {
		elem := make([]byte, cs.HashSize())
		if _, err := io.ReadFull(buf, elem); err != nil {
			return nil, err
		}
		elements[i] = elem
	}

	return &PrefixProof{results, elements}, nil
}

func (pp *PrefixProof) Marshal(buf *bytes.Buffer) error {
	if len(pp.Results) > 255 {
		return errors.New("results too long to marshal")
	}
	buf.WriteByte(byte(len(pp.Results)))
	for _, res := range pp.Results {
		res.Marshal(buf)
	}

	if len(pp.Elements) > 65535 {
		return errors.New("elements too long to marshal")
	}
	binary.Write(buf, binary.BigEndian, uint16(len(pp.Elements)))
	for _, elem := range pp.Elements {
		buf.Write(elem)
	}

	return nil
}

// PrefixSearchResult is the result of a single search.
type PrefixSearchResult interface {
	Inclusion() bool
	Depth() int
	Marshal(buf *bytes.Buffer)
}

type inclusionProof struct {
	depth int
}

func (p inclusionProof) Inclusion() bool { return true }
func (p inclusionProof) Depth() int      { return p.depth }

func (p inclusionProof) Marshal(buf *bytes.Buffer) {
	buf.WriteByte(inclusionResultType)
	buf.WriteByte(byte(p.depth))
}

type nonInclusionLeafProof struct {
	leaf  leafNode
	depth int
}

func (p nonInclusionLeafProof) Inclusion() bool { return false }
func (p nonInclusionLeafProof) Depth() int      { return p.depth }

func (p nonInclusionLeafProof) Marshal(buf *bytes.Buffer) {
	buf.WriteByte(nonInclusionLeafResultType)
	buf.Write(p.leaf.vrfOutput)
	buf.Write(p.leaf.commitment)
	buf.WriteByte(byte(p.depth))
}

type nonInclusionParentProof struct {
	depth int
}

func (p nonInclusionParentProof) Inclusion() bool { return false }
func (p nonInclusionParentProof) Depth() int      { return p.depth }

func (p nonInclusionParentProof) Marshal(buf *bytes.Buffer) {
	buf.WriteByte(nonInclusionParentResultType)
	buf.WriteByte(byte(p.depth))
}

func unmarshalSearchResult(cs suites.CipherSuite, buf *bytes.Buffer) (PrefixSearchResult, error) {
	resultType, err := buf.ReadByte()
	if err != nil {
		return nil, err
	}

	switch resultType {
	case inclusionResultType:
		depth, err := buf.ReadByte()
		if err != nil {
			return nil, err
		}
		return inclusionProof{int(depth)}, nil

	case nonInclusionLeafResultType:
		vrfOutput := make([]byte, cs.HashSize())
		if _, err := io.ReadFull(buf, vrfOutput); err != nil {
			return nil, err
		}
		commitment := make([]byte, cs.HashSize())
		if _, err := io.ReadFull(buf, commitment); err != nil {
			return nil, err
		}
		depth, err := buf.ReadByte()
		if err != nil {
			return nil, err
		}
		return nonInclusionLeafProof{
			leaf:  leafNode{vrfOutput, commitment},
			depth: int(depth),
		}, nil

	case nonInclusionParentResultType:
		depth, err := buf.ReadByte()
		if err != nil {
			return nil, err
		}
		return nonInclusionParentProof{int(depth)}, nil

	default:
		return nil, errors.New("invalid prefix search result type read")
	}
}
