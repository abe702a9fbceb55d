// Package deps pins the libraries emitted code is type-checked against.
package deps

import (
	_ "github.com/google/uuid"
	_ "github.com/mailru/easyjson/jwriter"
	_ "github.com/pkg/errors"
	_ "github.com/valyala/fastjson"
)
