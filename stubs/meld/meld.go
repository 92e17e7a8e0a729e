// Package meld stands in for a module that isn't available here.
package meld

import "log/slog"

func NewHandler(h slog.Handler) slog.Handler { return h }
