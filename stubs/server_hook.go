package main

import _ "github.com/madkins23/go-slog/internal/zzverif/server"
