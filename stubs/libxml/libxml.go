// Package libxml is a stand-in for github.com/amarin/libxml v0.1.2, which is not installed in this
// sandbox. gomorphy uses exactly one function of it: ParseXMLFile streams the tokens of a file, in
// document order, to a handler and stops at the first error, which it reports wrapped.
package libxml

import (
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"os"
)

// TokenProcessor handles the tokens of a document.
type TokenProcessor interface {
	ProcessStartElement(element xml.StartElement) error
	ProcessCharData(data xml.CharData) error
	ProcessEndElement(element xml.EndElement) error
	ProcessComment(comment xml.Comment) error
	ProcessProcInst(inst xml.ProcInst) error
	ProcessDirective(directive xml.Directive) error
}

// ParseXMLFile parses the file with the processor.
func ParseXMLFile(path string, processor TokenProcessor) error {
	file, err := os.Open(path)
	if err != nil {
		return fmt.Errorf("libxml: open: %w", err)
	}
	defer func() { _ = file.Close() }()

	return ParseXML(file, processor)
}

// Before, if set, is called before each token is handed over: reading may take any time.
var Before func()

// ParseXML parses a stream with the processor.
func ParseXML(source io.Reader, processor TokenProcessor) error {
	decoder := xml.NewDecoder(source)
	for {
		token, err := decoder.Token()
		if err != nil {
			if errors.Is(err, io.EOF) {
				return nil
			}
			return fmt.Errorf("libxml: token: %w", err)
		}
		if Before != nil {
			Before()
		}
		switch t := token.(type) {
		case xml.StartElement:
			err = processor.ProcessStartElement(t)
		case xml.EndElement:
			err = processor.ProcessEndElement(t)
		case xml.CharData:
			err = processor.ProcessCharData(t)
		case xml.Comment:
			err = processor.ProcessComment(t)
		case xml.ProcInst:
			err = processor.ProcessProcInst(t)
		case xml.Directive:
			err = processor.ProcessDirective(t)
		}
		if err != nil {
			return fmt.Errorf("libxml: process: %w", err)
		}
	}
}
