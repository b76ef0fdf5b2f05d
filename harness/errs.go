package main

import (
	"database/sql/driver"
	"errors"
	"strconv"
	"strings"

	bolterr "github.com/mindstand/go-bolt/errors"
	"github.com/mindstand/go-bolt/structures/messages"
)

const failCode = "Neo.ClientError.Verif.T"
const failText = "the reason is R"

// chain calls f for every error that can be reached from err.
func chain(err error, f func(error)) {
	for depth := 0; err != nil && depth < 50; depth++ {
		f(err)
		if e, ok := err.(*bolterr.Error); ok {
			if e == nil {
				return
			}
			f(e.InnerMost())
			err = e.Inner()
			continue
		}
		err = errors.Unwrap(err)
	}
}

func isBadConn(err error) bool {
	found := false
	chain(err, func(e error) {
		if e == driver.ErrBadConn {
			found = true
		}
	})
	return found
}

// failTag finds the server failure an error reports: its number, or 0.
func failTag(err error) int {
	if err == nil {
		return 0
	}
	tag := 0
	chain(err, func(e error) {
		var md map[string]interface{}
		switch f := e.(type) {
		case messages.FailureMessage:
			md = f.Metadata
		case *messages.FailureMessage:
			if f != nil {
				md = f.Metadata
			}
		default:
			return
		}
		code, _ := md["code"].(string)
		text, _ := md["message"].(string)
		if n, err := strconv.Atoi(strings.TrimPrefix(code, failCode)); err == nil && text == failText+strconv.Itoa(n) {
			tag = n
		}
	})
	if tag == 0 {
		// not as a typed failure, but perhaps in words
		s := err.Error()
		if i := strings.Index(s, failCode); i >= 0 {
			j := i + len(failCode)
			k := j
			for k < len(s) && s[k] >= '0' && s[k] <= '9' {
				k++
			}
			if n, err := strconv.Atoi(s[j:k]); err == nil && strings.Contains(s, failText+strconv.Itoa(n)) {
				tag = n
			}
		}
	}
	return tag
}
