From b3bd1eecfb6331509475e220b43e92350210f877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 01/56] fix: copy prefix, suffix and groups when deriving
 loggers

Loggers derived from the same parent appended to the same backing array, so
deriving one changed what an earlier sibling wrote.
---
 handlers/flash/handler.go  | 11 +++++++----
 handlers/sloggy/handler.go |  3 ++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 1f6a39b..4e67c8f 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log/slog"
+	"slices"
 	"sync"
 )
 
@@ -145,7 +146,8 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 	}
 	var prefixStarted bool
 	if len(h.prefix) > 0 {
-		hdlr.prefix = h.prefix
+		// Copy the prefix so that appending doesn't overwrite data shared with other loggers.
+		hdlr.prefix = append(make([]byte, 0, len(h.prefix)+lenPrefix), h.prefix...)
 		if !bytes.HasSuffix(hdlr.prefix, []byte{'{'}) {
 			prefixStarted = true
 		}
@@ -178,7 +180,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	if h.options.ReplaceAttr != nil {
 		// Only need this if there is a ReplaceAttr function.
 		// Even then, the function may not care, but we don't know that here.
-		groups = append(h.groups, name)
+		groups = append(slices.Clip(h.groups), name)
 	}
 	hdlr := &group{
 		Handler: &Handler{
@@ -193,7 +195,8 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	}
 	prefixStart := ""
 	if len(h.prefix) > 0 {
-		hdlr.prefix = h.prefix
+		// Copy the prefix so that appending doesn't overwrite data shared with other loggers.
+		hdlr.prefix = append(make([]byte, 0, len(h.prefix)+lenPrefix), h.prefix...)
 		if !bytes.HasSuffix(h.prefix, []byte{'{'}) {
 			prefixStart = ", "
 		}
@@ -208,7 +211,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	hdlr.prefix = append(hdlr.prefix, []byte(fmt.Sprintf("%s\"%s\": {", prefixStart, name))...)
 	// Should really be prepending the right brace into the suffix,
 	// but suffix only contains right braces, so it doesn't really matter.
-	hdlr.suffix = append(h.suffix, '}')
+	hdlr.suffix = append(slices.Clip(h.suffix), '}')
 	return hdlr
 }
 
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 38be0e7..dcaf757 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"log/slog"
 	"runtime"
+	"slices"
 	"sync"
 )
 
@@ -144,7 +145,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 			mutex:   h.mutex,
 			prefix:  bytes.Buffer{},
 			suffix:  bytes.Buffer{},
-			groups:  append(h.groups, name),
+			groups:  append(slices.Clip(h.groups), name),
 		},
 		name:   name,
 		parent: h,
-- 
2.43.0


From d65b253beff29c8ef8626532e47d72e4c74a03a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 02/56] fix: write each sloggy record with a single Write call
 under the mutex

Records were written piece by piece with only the line end protected, so
concurrent records got intermingled and failed records left partial lines.
---
 handlers/sloggy/handler.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index dcaf757..1604556 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -40,7 +40,10 @@ func (h *Handler) Enabled(_ context.Context, level slog.Level) bool {
 }
 
 func (h *Handler) Handle(_ context.Context, record slog.Record) error {
-	c := newComposer(h.writer, false, h.options.ReplaceAttr, h.groups)
+	// Compose the entire line before writing it all at once so that
+	// concurrent log records are not intermingled and failed ones are not written in part.
+	var line bytes.Buffer
+	c := newComposer(&line, false, h.options.ReplaceAttr, h.groups)
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
@@ -96,11 +99,15 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		return fmt.Errorf("end: %w", err)
 	}
 
+	if _, err := c.Write(newLine); err != nil {
+		return fmt.Errorf("newLine: %w", err)
+	}
+
 	h.mutex.Lock()
 	defer h.mutex.Unlock()
 
-	if _, err := c.Write(newLine); err != nil {
-		return fmt.Errorf("newLine: %w", err)
+	if _, err := h.writer.Write(line.Bytes()); err != nil {
+		return fmt.Errorf("write log line: %w", err)
 	}
 
 	return nil
-- 
2.43.0


From 5b7d143c9fc716d56579186cbc6b51888e062ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 03/56] fix: no leading comma in sloggy when ReplaceAttr
 removes all basic fields

---
 handlers/sloggy/handler.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 1604556..ccb02d6 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -69,15 +69,15 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	}
 
 	if h.prefix.Len() > 0 {
-		if _, err := c.Write(commaSpace); err != nil {
-			return fmt.Errorf("comma space: %w", err)
+		if c.started {
+			if _, err := c.Write(commaSpace); err != nil {
+				return fmt.Errorf("comma space: %w", err)
+			}
 		}
 		if _, err := c.Write(h.prefix.Bytes()); err != nil {
 			return fmt.Errorf("write prefix: %w", err)
 		}
-		if bytes.HasSuffix(h.prefix.Bytes(), []byte{'{'}) {
-			c.setStarted(false)
-		}
+		c.setStarted(!bytes.HasSuffix(h.prefix.Bytes(), []byte{'{'}))
 	}
 
 	var err error
-- 
2.43.0


From 4df3b098ad6078cec8e67653cd8ed38ad5ec7919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 04/56] fix: resolve LogValuers to their final kind before and
 after ReplaceAttr

flash rendered a LogValuer resolving to a group as a marshaled array and sloggy
passed unresolved values to ReplaceAttr; neither resolved a replacement.
---
 handlers/flash/composer.go  | 2 ++
 handlers/sloggy/composer.go | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 94d4572..c385acb 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -58,6 +58,7 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	kind := attr.Value.Kind()
 	if kind == slog.KindLogValuer {
 		attr.Value = attr.Value.Resolve()
+		kind = attr.Value.Kind()
 	}
 	if c.replace != nil {
 		var groups []string
@@ -65,6 +66,7 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 			groups = c.groups
 		}
 		attr = c.replace(groups, attr)
+		attr.Value = attr.Value.Resolve()
 		kind = attr.Value.Kind()
 	}
 	if attr.Equal(infra.EmptyAttr()) {
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 926ccda..1938a75 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -68,13 +68,15 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	if attr.Equal(infra.EmptyAttr()) {
 		return nil
 	}
-	value := attr.Value.Resolve()
+	attr.Value = attr.Value.Resolve()
+	value := attr.Value
 	if c.replace != nil {
 		var groups []string
 		if !basicField[attr.Key] {
 			groups = c.groups
 		}
 		attr = c.replace(groups, attr)
+		attr.Value = attr.Value.Resolve()
 		value = attr.Value
 	}
 	if attr.Equal(infra.EmptyAttr()) {
-- 
2.43.0


From 9986d13338db7a224d12b6f3940087245c886b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 05/56] fix: omit groups without any logged content in flash
 and sloggy

Groups were considered empty only by the shape of the arguments: members that
were empty groups, resolved to nothing or were removed by ReplaceAttr left {} in
the record (in flash also without the following comma, which is not JSON), and
adding only empty attributes to a group made it non-empty. Handlers now know
which trailing groups are still empty and drop them when nothing is added.
---
 handlers/flash/composer.go  | 12 ++++++-
 handlers/flash/group.go     | 65 -------------------------------------
 handlers/flash/handler.go   | 47 ++++++++++++++++++++-------
 handlers/sloggy/composer.go | 21 ++++++++----
 handlers/sloggy/group.go    | 65 -------------------------------------
 handlers/sloggy/handler.go  | 53 +++++++++++++++++++++++-------
 6 files changed, 102 insertions(+), 161 deletions(-)
 delete mode 100644 handlers/flash/group.go
 delete mode 100644 handlers/sloggy/group.go

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index c385acb..89eacd4 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -84,11 +84,19 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 			return nil
 		}
 	}
+	length, started := len(c.buffer), c.started
 	c.addSeparator()
 	c.addKey(attr.Key)
 	switch kind {
 	case slog.KindGroup:
-		return c.addGroup(value.Group())
+		if err := c.addGroup(value.Group()); err != nil {
+			return err
+		}
+		if !c.started {
+			// Nothing was added within the group so it must not be logged.
+			c.buffer = c.buffer[:length]
+			c.started = started
+		}
 	case slog.KindBool:
 		if value.Bool() {
 			c.buffer = append(c.buffer, "true"...)
@@ -272,6 +280,8 @@ func (c *composer) addEscaped(s []byte) {
 	}
 }
 
+// addGroup adds the specified attributes within braces.
+// Afterward c.started will be false if none of the attributes were actually added.
 func (c *composer) addGroup(attrs []slog.Attr) error {
 	var err error
 	c.buffer = append(c.buffer, '{')
diff --git a/handlers/flash/group.go b/handlers/flash/group.go
deleted file mode 100644
index 504c9fa..0000000
--- a/handlers/flash/group.go
+++ /dev/null
@@ -1,65 +0,0 @@
-package flash
-
-import (
-	"context"
-	"log/slog"
-
-	"github.com/madkins23/go-slog/infra"
-)
-
-// group structure provides embedded group support to flash handler.
-type group struct {
-	*Handler
-
-	// name of group.
-	name string
-
-	// parent handler or group.
-	parent slog.Handler
-	// Unlike the Handler, which doesn't know its parent,
-	// a group must be able to find its parent when deleting an empty subgroup.
-}
-
-func (g *group) Handle(ctx context.Context, record slog.Record) error {
-	count := 0
-	var dead = false
-	var deadGroup string
-	if deadVal := ctx.Value("deadGroup"); deadVal != nil {
-		// This is a call back to remove a (now empty) group.
-		deadGroup = deadVal.(string)
-	}
-	record.Attrs(func(attr slog.Attr) bool {
-		if !attr.Equal(infra.EmptyAttr()) {
-			count++
-			if deadGroup != "" && attr.Key == deadGroup {
-				if attr.Value.Kind() == slog.KindGroup {
-					dead = true
-				}
-			}
-			return false
-		}
-		return true
-	})
-	if count < 1 || // There is nothing in the record attributes, the group is empty or...
-		(count < 2 && dead) { // ...there is only a single attribute which is the dead group that called.
-		// Since the normal handler prefix already includes group name and open brace
-		// it isn't possible to use the current handler prefix.
-		// The parent handler prefix, however, should work just fine.
-		// Pass in the context variable "deadGroup" to specify the name of this (now empty) group.
-		return g.parent.Handle(context.WithValue(ctx, "deadGroup", g.name), record)
-		// This is a weird solution, but it seems to work.
-	}
-	return g.Handler.Handle(ctx, record)
-}
-
-func (g *group) WithGroup(name string) slog.Handler {
-	hdlr := g.Handler.WithGroup(name)
-	if group, ok := hdlr.(*group); ok {
-		// Override the previously set parent to be this object.
-		group.parent = g
-	} else {
-		// Shouldn't happen but method has no error result.
-		slog.Error("not a *group")
-	}
-	return hdlr
-}
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 4e67c8f..484f4b5 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -25,6 +25,11 @@ type Handler struct {
 	mutex          *sync.Mutex
 	prefix, suffix []byte
 	groups         []string
+
+	// Trailing groups in prefix that don't contain anything yet.
+	emptyGroups int
+	// Length of the prefix before any such groups.
+	emptyStart int
 }
 
 // NewHandler returns a new sloggy handler with the specified output writer and slog.HandlerOptions.
@@ -103,6 +108,7 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		}
 	}
 
+	prefixStart, prefixStarted := len(c.buffer), c.started
 	if len(h.prefix) > 0 {
 		c.addSeparator()
 		c.addByteArray(h.prefix)
@@ -122,8 +128,19 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	if err != nil {
 		return fmt.Errorf("add attribute: %w", err)
 	}
-	if len(h.suffix) > 0 {
-		c.addByteArray(h.suffix)
+	suffix := h.suffix
+	if h.emptyGroups > 0 && !c.started {
+		// Nothing was added to the trailing groups so they must not be logged.
+		c.buffer = c.buffer[:prefixStart]
+		if h.emptyStart > 0 {
+			c.started = prefixStarted
+			c.addSeparator()
+			c.addByteArray(h.prefix[:h.emptyStart])
+		}
+		suffix = suffix[h.emptyGroups:]
+	}
+	if len(suffix) > 0 {
+		c.addByteArray(suffix)
 	}
 	c.addBytes('}', '\n')
 
@@ -167,6 +184,11 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 		slog.Error("adding with attributes", "err", err)
 	}
 	hdlr.prefix = c.getBytes()
+	if len(hdlr.prefix) == len(h.prefix) {
+		// No attributes were added so any empty groups are still empty.
+		hdlr.emptyGroups = h.emptyGroups
+		hdlr.emptyStart = h.emptyStart
+	}
 
 	return hdlr
 }
@@ -182,16 +204,17 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 		// Even then, the function may not care, but we don't know that here.
 		groups = append(slices.Clip(h.groups), name)
 	}
-	hdlr := &group{
-		Handler: &Handler{
-			options: h.options,
-			extras:  h.extras,
-			writer:  h.writer,
-			mutex:   h.mutex,
-			groups:  groups,
-		},
-		name:   name,
-		parent: h,
+	hdlr := &Handler{
+		options:     h.options,
+		extras:      h.extras,
+		writer:      h.writer,
+		mutex:       h.mutex,
+		groups:      groups,
+		emptyGroups: h.emptyGroups + 1,
+		emptyStart:  h.emptyStart,
+	}
+	if h.emptyGroups == 0 {
+		hdlr.emptyStart = len(h.prefix)
 	}
 	prefixStart := ""
 	if len(h.prefix) > 0 {
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 1938a75..586381e 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -93,6 +93,17 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 			return nil
 		}
 	}
+	var group bytes.Buffer
+	if value.Kind() == slog.KindGroup {
+		// Compose the group first, it must not be logged if nothing is added within it.
+		cg := newComposer(&group, false, c.replace, c.groups)
+		if err := cg.addAttributes(value.Group()); err != nil {
+			return fmt.Errorf("add attributes: %w", err)
+		}
+		if !cg.started {
+			return nil
+		}
+	}
 	if !c.started {
 		c.started = true
 	} else if _, err := c.Write(commaSpace); err != nil {
@@ -106,7 +117,7 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	}
 	switch value.Kind() {
 	case slog.KindGroup:
-		return c.addGroup(attr.Key, value.Group())
+		return c.addGroup(group.Bytes())
 	case slog.KindBool:
 		return c.addBool(value.Bool())
 	case slog.KindDuration:
@@ -206,14 +217,12 @@ func (c *composer) addFloat64(f float64) error {
 	return nil
 }
 
-func (c *composer) addGroup(_ string, attrs []slog.Attr) error {
+func (c *composer) addGroup(group []byte) error {
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
-	// Local composer object resets started flag
-	cg := newComposer(c.Writer, false, c.replace, c.groups)
-	if err := cg.addAttributes(attrs); err != nil {
-		return fmt.Errorf("add attributes: %w", err)
+	if _, err := c.Write(group); err != nil {
+		return fmt.Errorf("write group: %w", err)
 	}
 	if err := c.end(); err != nil {
 		return fmt.Errorf("end: %w", err)
diff --git a/handlers/sloggy/group.go b/handlers/sloggy/group.go
deleted file mode 100644
index 2009082..0000000
--- a/handlers/sloggy/group.go
+++ /dev/null
@@ -1,65 +0,0 @@
-package sloggy
-
-import (
-	"context"
-	"log/slog"
-
-	"github.com/madkins23/go-slog/infra"
-)
-
-// group structure provides embedded group support to sloggy handler.
-type group struct {
-	*Handler
-
-	// name of group.
-	name string
-
-	// parent handler or group.
-	parent slog.Handler
-	// Unlike the Handler, which doesn't know its parent,
-	// a group must be able to find its parent when deleting an empty subgroup.
-}
-
-func (g *group) Handle(ctx context.Context, record slog.Record) error {
-	count := 0
-	var dead = false
-	var deadGroup string
-	if deadVal := ctx.Value("deadGroup"); deadVal != nil {
-		// This is a call back to remove a (now empty) group.
-		deadGroup = deadVal.(string)
-	}
-	record.Attrs(func(attr slog.Attr) bool {
-		if !attr.Equal(infra.EmptyAttr()) {
-			count++
-			if deadGroup != "" && attr.Key == deadGroup {
-				if attr.Value.Kind() == slog.KindGroup {
-					dead = true
-				}
-			}
-			return false
-		}
-		return true
-	})
-	if count < 1 || // There is nothing in the record attributes, the group is empty or...
-		(count < 2 && dead) { // ...there is only a single attribute which is the dead group that called.
-		// Since the normal handler prefix already includes group name and open brace
-		// it isn't possible to use the current handler prefix.
-		// The parent handler prefix, however, should work just fine.
-		// Pass in the context variable "deadGroup" to specify the name of this (now empty) group.
-		return g.parent.Handle(context.WithValue(ctx, "deadGroup", g.name), record)
-		// This is a weird solution, but it seems to work.
-	}
-	return g.Handler.Handle(ctx, record)
-}
-
-func (g *group) WithGroup(name string) slog.Handler {
-	hdlr := g.Handler.WithGroup(name)
-	if group, ok := hdlr.(*group); ok {
-		// Override the previously set parent to be this object.
-		group.parent = g
-	} else {
-		// Shouldn't happen but method has no error result.
-		slog.Error("not a *group")
-	}
-	return hdlr
-}
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index ccb02d6..dd39daf 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -20,6 +20,11 @@ type Handler struct {
 	mutex          *sync.Mutex
 	prefix, suffix bytes.Buffer
 	groups         []string
+
+	// Trailing groups in prefix that don't contain anything yet.
+	emptyGroups int
+	// Length of the prefix before any such groups.
+	emptyStart int
 }
 
 // NewHandler returns a new sloggy handler with the specified output writer and slog.HandlerOptions.
@@ -68,6 +73,7 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		return fmt.Errorf("add basic attributes: %w", err)
 	}
 
+	prefixStart, prefixStarted := line.Len(), c.started
 	if h.prefix.Len() > 0 {
 		if c.started {
 			if _, err := c.Write(commaSpace); err != nil {
@@ -91,7 +97,24 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		return fmt.Errorf("add attributes: %w", err)
 	}
 
-	if _, err := c.Write(h.suffix.Bytes()); err != nil {
+	suffix := h.suffix.Bytes()
+	if h.emptyGroups > 0 && !c.started {
+		// Nothing was added to the trailing groups so they must not be logged.
+		line.Truncate(prefixStart)
+		if h.emptyStart > 0 {
+			if prefixStarted {
+				if _, err := c.Write(commaSpace); err != nil {
+					return fmt.Errorf("comma space: %w", err)
+				}
+			}
+			if _, err := c.Write(h.prefix.Bytes()[:h.emptyStart]); err != nil {
+				return fmt.Errorf("write prefix: %w", err)
+			}
+		}
+		suffix = suffix[h.emptyGroups:]
+	}
+
+	if _, err := c.Write(suffix); err != nil {
 		return fmt.Errorf("write suffix: %w", err)
 	}
 
@@ -136,6 +159,11 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 	if err := c.addAttributes(attrs); err != nil {
 		slog.Error("adding with attributes", "err", err)
 	}
+	if hdlr.prefix.Len() == h.prefix.Len() {
+		// No attributes were added so any empty groups are still empty.
+		hdlr.emptyGroups = h.emptyGroups
+		hdlr.emptyStart = h.emptyStart
+	}
 
 	return hdlr
 }
@@ -145,17 +173,18 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 		// Groups with empty names are to be inlined.
 		return h
 	}
-	hdlr := &group{
-		Handler: &Handler{
-			options: h.options,
-			writer:  h.writer,
-			mutex:   h.mutex,
-			prefix:  bytes.Buffer{},
-			suffix:  bytes.Buffer{},
-			groups:  append(slices.Clip(h.groups), name),
-		},
-		name:   name,
-		parent: h,
+	hdlr := &Handler{
+		options:     h.options,
+		writer:      h.writer,
+		mutex:       h.mutex,
+		prefix:      bytes.Buffer{},
+		suffix:      bytes.Buffer{},
+		groups:      append(slices.Clip(h.groups), name),
+		emptyGroups: h.emptyGroups + 1,
+		emptyStart:  h.emptyStart,
+	}
+	if h.emptyGroups == 0 {
+		hdlr.emptyStart = h.prefix.Len()
 	}
 	prefixStart := emptyString
 	if h.prefix.Len() > 0 {
-- 
2.43.0


From fa18098718a6c15a8f6364e850a063df9b32151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 06/56] fix: call ReplaceAttr with the full group path and not
 for groups

Per slog.HandlerOptions ReplaceAttr is never called for groups and gets the open
groups, including those of group attributes. Attributes merely named like a
basic field were passed without their groups.
---
 handlers/flash/composer.go  | 31 +++++++++++++------------------
 handlers/flash/handler.go   |  4 +++-
 handlers/sloggy/composer.go | 18 ++++--------------
 handlers/sloggy/handler.go  |  4 +++-
 4 files changed, 23 insertions(+), 34 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 89eacd4..3d4afa3 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"log/slog"
+	"slices"
 	"strconv"
 	"time"
 
@@ -17,12 +18,11 @@ var composerPool = newGenPool[composer]()
 
 // composer handles writing attributes to an io.Writer.
 type composer struct {
-	buffer     []byte
-	started    bool
-	replace    infra.AttrFn
-	groups     []string
-	extras     *Extras
-	basicField map[string]bool
+	buffer  []byte
+	started bool
+	replace infra.AttrFn
+	groups  []string
+	extras  *Extras
 }
 
 func newComposer(buffer []byte, started bool, replace infra.AttrFn, groups []string, extras *Extras) *composer {
@@ -32,11 +32,6 @@ func newComposer(buffer []byte, started bool, replace infra.AttrFn, groups []str
 	comp.started = started
 	comp.replace = replace
 	comp.groups = groups
-	comp.basicField = make(map[string]bool, 4)
-	comp.basicField[extras.LevelKey] = true
-	comp.basicField[extras.MessageKey] = true
-	comp.basicField[extras.SourceKey] = true
-	comp.basicField[extras.TimeKey] = true
 	return comp
 }
 
@@ -60,12 +55,8 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 		attr.Value = attr.Value.Resolve()
 		kind = attr.Value.Kind()
 	}
-	if c.replace != nil {
-		var groups []string
-		if !c.basicField[attr.Key] {
-			groups = c.groups
-		}
-		attr = c.replace(groups, attr)
+	if c.replace != nil && kind != slog.KindGroup {
+		attr = c.replace(c.groups, attr)
 		attr.Value = attr.Value.Resolve()
 		kind = attr.Value.Kind()
 	}
@@ -89,7 +80,11 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	c.addKey(attr.Key)
 	switch kind {
 	case slog.KindGroup:
-		if err := c.addGroup(value.Group()); err != nil {
+		groups := c.groups
+		c.groups = append(slices.Clip(groups), attr.Key)
+		err := c.addGroup(value.Group())
+		c.groups = groups
+		if err != nil {
 			return err
 		}
 		if !c.started {
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 484f4b5..05de81c 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -61,7 +61,8 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	buffer := logPool.get()[:0]
 	defer func() { logPool.put(buffer) }()
 
-	c := newComposer(buffer, false, h.options.ReplaceAttr, h.groups, h.extras)
+	// The basic fields are not part of any group.
+	c := newComposer(buffer, false, h.options.ReplaceAttr, nil, h.extras)
 	defer reuseComposer(c)
 	c.addBytes('{')
 
@@ -119,6 +120,7 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	}
 
 	var err error
+	c.groups = h.groups
 	record.Attrs(func(attr slog.Attr) bool {
 		if err = c.addAttribute(attr); err != nil {
 			return false
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 586381e..466e9a2 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"log/slog"
 	"net"
+	"slices"
 	"strconv"
 	"time"
 
@@ -25,13 +26,6 @@ var (
 	newLine     = []byte{'\r', '\n'}
 )
 
-var basicField = map[string]bool{
-	slog.TimeKey:    true,
-	slog.LevelKey:   true,
-	slog.MessageKey: true,
-	slog.SourceKey:  true,
-}
-
 // -----------------------------------------------------------------------------
 
 // composer handles writing attributes to an io.Writer.
@@ -70,12 +64,8 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	}
 	attr.Value = attr.Value.Resolve()
 	value := attr.Value
-	if c.replace != nil {
-		var groups []string
-		if !basicField[attr.Key] {
-			groups = c.groups
-		}
-		attr = c.replace(groups, attr)
+	if c.replace != nil && value.Kind() != slog.KindGroup {
+		attr = c.replace(c.groups, attr)
 		attr.Value = attr.Value.Resolve()
 		value = attr.Value
 	}
@@ -96,7 +86,7 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	var group bytes.Buffer
 	if value.Kind() == slog.KindGroup {
 		// Compose the group first, it must not be logged if nothing is added within it.
-		cg := newComposer(&group, false, c.replace, c.groups)
+		cg := newComposer(&group, false, c.replace, append(slices.Clip(c.groups), attr.Key))
 		if err := cg.addAttributes(value.Group()); err != nil {
 			return fmt.Errorf("add attributes: %w", err)
 		}
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index dd39daf..cff517f 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -48,7 +48,8 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	// Compose the entire line before writing it all at once so that
 	// concurrent log records are not intermingled and failed ones are not written in part.
 	var line bytes.Buffer
-	c := newComposer(&line, false, h.options.ReplaceAttr, h.groups)
+	// The basic fields are not part of any group.
+	c := newComposer(&line, false, h.options.ReplaceAttr, nil)
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
@@ -87,6 +88,7 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	}
 
 	var err error
+	c.groups = h.groups
 	record.Attrs(func(attr slog.Attr) bool {
 		if err = c.addAttribute(attr); err != nil {
 			return false
-- 
2.43.0


From 4b6013a87cb8475d64a908c0c2ca53e46efdc0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 07/56] fix: replace invalid UTF-8 in flash strings

A truncated multi-byte sequence swallowed the bytes after it unescaped,
including quotes, or repeated text at the end of the string.
---
 handlers/flash/composer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 3d4afa3..2273166 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -1,6 +1,7 @@
 package flash
 
 import (
+	"bytes"
 	"encoding"
 	"encoding/json"
 	"fmt"
@@ -8,6 +9,7 @@ import (
 	"slices"
 	"strconv"
 	"time"
+	"unicode/utf8"
 
 	"github.com/madkins23/go-slog/infra"
 )
@@ -177,6 +179,10 @@ var hexDigit = `0123456789ABCDEF`
 // Any changes from the source are the fault the author of this method and
 // should not reflect on the source material. ;-)
 func (c *composer) addEscaped(s []byte) {
+	if !utf8.Valid(s) {
+		// The code below depends on complete UTF8 sequences.
+		s = bytes.ToValidUTF8(s, []byte(string(utf8.RuneError)))
+	}
 	var b byte
 	var begin, index int
 	uniByte := make([]byte, 0, 4)
-- 
2.43.0


From a5badae8d40dce754057ec6f7d8ba0f436489c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 08/56] fix: quote sloggy strings as JSON

strconv.Quote generates escapes such as \x00 and \a which are not JSON.
---
 handlers/sloggy/composer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 466e9a2..c7a8f56 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -257,7 +257,12 @@ func (c *composer) addMacAddress(mac net.HardwareAddr) error {
 }
 
 func (c *composer) addString(str string) error {
-	if _, err := c.Write([]byte(strconv.Quote(str))); err != nil {
+	// Not strconv.Quote which generates Go escape sequences that aren't valid in JSON.
+	quoted, err := json.Marshal(str)
+	if err != nil {
+		return fmt.Errorf("quote string: %w", err)
+	}
+	if _, err := c.Write(quoted); err != nil {
 		return fmt.Errorf("write quoted string: %w", err)
 	}
 	return nil
-- 
2.43.0


From 5664d1b1f8668c793a2761fa78c0338ec4253661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 09/56] fix: escape group names passed to WithGroup

---
 handlers/flash/handler.go  | 6 +++++-
 handlers/sloggy/handler.go | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 05de81c..fb37eba 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -233,7 +233,11 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	} else {
 		hdlr.suffix = make([]byte, 0, lenSuffix)
 	}
-	hdlr.prefix = append(hdlr.prefix, []byte(fmt.Sprintf("%s\"%s\": {", prefixStart, name))...)
+	c := newComposer(append(hdlr.prefix, prefixStart...), false, nil, nil, h.extras)
+	defer reuseComposer(c)
+	c.addKey(name)
+	c.addBytes('{')
+	hdlr.prefix = c.getBytes()
 	// Should really be prepending the right brace into the suffix,
 	// but suffix only contains right braces, so it doesn't really matter.
 	hdlr.suffix = append(slices.Clip(h.suffix), '}')
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index cff517f..a731e30 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -199,9 +199,12 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 		hdlr.suffix.Write(h.suffix.Bytes())
 	}
 
-	if _, err := fmt.Fprintf(&hdlr.prefix, "%s\"%s\": {", prefixStart, name); err != nil {
+	hdlr.prefix.Write(prefixStart)
+	if err := newComposer(&hdlr.prefix, false, nil, nil).addString(name); err != nil {
 		slog.Error("open group", "err", err)
 	}
+	hdlr.prefix.Write(colonSpace)
+	hdlr.prefix.Write(braceLeft)
 	if _, err := hdlr.suffix.Write(braceRight); err != nil {
 		slog.Error("group right brace", "err", err)
 	}
-- 
2.43.0


From 50791876d477161ce1c0f3d7fdb9ab04806f3ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 10/56] fix: log NaN and infinite floats as strings

They were written bare, making the record invalid JSON.
---
 handlers/flash/composer.go  | 7 ++++++-
 handlers/sloggy/composer.go | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 2273166..c442dfa 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"log/slog"
+	"math"
 	"slices"
 	"strconv"
 	"time"
@@ -103,7 +104,11 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	case slog.KindDuration:
 		c.buffer = strconv.AppendInt(c.buffer, value.Duration().Nanoseconds(), 10)
 	case slog.KindFloat64:
-		c.buffer = strconv.AppendFloat(c.buffer, value.Float64(), 'f', -1, 64)
+		if f := value.Float64(); math.IsNaN(f) || math.IsInf(f, 0) {
+			c.addString(value.String()) // There is no such JSON number.
+		} else {
+			c.buffer = strconv.AppendFloat(c.buffer, f, 'f', -1, 64)
+		}
 	case slog.KindInt64:
 		c.buffer = strconv.AppendInt(c.buffer, value.Int64(), 10)
 	case slog.KindString:
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index c7a8f56..ed9a1ef 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"log/slog"
+	"math"
 	"net"
 	"slices"
 	"strconv"
@@ -201,6 +202,10 @@ func (c *composer) addError(e error) error {
 }
 
 func (c *composer) addFloat64(f float64) error {
+	if math.IsNaN(f) || math.IsInf(f, 0) {
+		// There is no such JSON number.
+		return c.addString(slog.Float64Value(f).String())
+	}
 	if _, err := c.Write(strconv.AppendFloat([]byte{}, f, 'f', -1, 64)); err != nil {
 		return fmt.Errorf("float64: %w", err)
 	}
-- 
2.43.0


From c930e3f6df3c7f44b59f0cd005ccff90ed0a144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 11/56] fix: log the standard name for levels without a
 configured name in flash

Levels other than the four named ones, such as INFO+2, were logged as empty strings.
---
 handlers/flash/extras.go  | 8 ++++++++
 handlers/flash/handler.go | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/handlers/flash/extras.go b/handlers/flash/extras.go
index 3672f86..31f6ab1 100644
--- a/handlers/flash/extras.go
+++ b/handlers/flash/extras.go
@@ -85,3 +85,11 @@ func fixExtras(extras *Extras) *Extras {
 	}
 	return extras
 }
+
+// levelName returns the configured name for the specified level, if any, else its standard name.
+func (extras *Extras) levelName(level slog.Level) string {
+	if name := extras.LevelNames[level]; name != "" {
+		return name
+	}
+	return level.String()
+}
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index fb37eba..8e0e2e3 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -82,8 +82,8 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	if h.options.ReplaceAttr == nil {
 		c.addSeparator()
 		c.addKey(h.extras.LevelKey)
-		c.addString(h.extras.LevelNames[record.Level])
-	} else if err := c.addAttribute(slog.String(h.extras.LevelKey, h.extras.LevelNames[record.Level])); err != nil {
+		c.addString(h.extras.levelName(record.Level))
+	} else if err := c.addAttribute(slog.String(h.extras.LevelKey, h.extras.levelName(record.Level))); err != nil {
 		return fmt.Errorf("add level: %w", err)
 	}
 	if h.options.ReplaceAttr == nil {
-- 
2.43.0


From 2a96aa5c0a9e2cb6ad3a3ca245154256539700c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 12/56] fix: don't modify the options and extras passed to
 NewHandler

---
 handlers/flash/extras.go   | 6 ++++++
 handlers/flash/handler.go  | 4 ++++
 handlers/sloggy/handler.go | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/handlers/flash/extras.go b/handlers/flash/extras.go
index 31f6ab1..1e6213c 100644
--- a/handlers/flash/extras.go
+++ b/handlers/flash/extras.go
@@ -2,6 +2,7 @@ package flash
 
 import (
 	"log/slog"
+	"maps"
 	"time"
 )
 
@@ -52,6 +53,11 @@ type Extras struct {
 func fixExtras(extras *Extras) *Extras {
 	if extras == nil {
 		extras = &Extras{}
+	} else {
+		// Copy the extras as they belong to the caller.
+		fixed := *extras
+		fixed.LevelNames = maps.Clone(extras.LevelNames)
+		extras = &fixed
 	}
 	if extras.TimeFormat == "" {
 		extras.TimeFormat = DefaultTimeFormat
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 8e0e2e3..7b3cafc 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -251,6 +251,10 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 func fixOptions(options *slog.HandlerOptions) *slog.HandlerOptions {
 	if options == nil {
 		options = &slog.HandlerOptions{}
+	} else {
+		// Copy the options as they belong to the caller.
+		fixed := *options
+		options = &fixed
 	}
 	if options.Level == nil {
 		options.Level = slog.LevelInfo
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index a731e30..10a65a7 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -219,6 +219,10 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 func fixOptions(options *slog.HandlerOptions) *slog.HandlerOptions {
 	if options == nil {
 		options = &slog.HandlerOptions{}
+	} else {
+		// Copy the options as they belong to the caller.
+		fixed := *options
+		options = &fixed
 	}
 	if options.Level == nil {
 		options.Level = slog.LevelInfo
-- 
2.43.0


From 83e92064931fd78118db4c50a5ea0ef1d4f965c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 13/56] fix: escape formatted times in flash

Time formats and zone names may contain quotes and other special characters.
---
 handlers/flash/composer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index c442dfa..d55fce8 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -333,8 +333,9 @@ func (c *composer) addTextMarshaler(m encoding.TextMarshaler) error {
 }
 
 func (c *composer) addTime(t time.Time) {
+	var text [64]byte
 	c.buffer = append(c.buffer, '"')
-	c.buffer = t.AppendFormat(c.buffer, c.extras.TimeFormat)
+	c.addEscaped(t.AppendFormat(text[:0], c.extras.TimeFormat))
 	c.buffer = append(c.buffer, '"')
 }
 
-- 
2.43.0


From a1ffad4f5948f57628b905e16f9aab6c6ad5220f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 14/56] fix: show marshaling errors in the field instead of
 dropping the record

---
 handlers/flash/composer.go  | 15 +++++----------
 handlers/sloggy/composer.go |  2 +-
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index d55fce8..0c033d8 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -143,18 +143,17 @@ func (c *composer) addAny(a any) error {
 	case error:
 		c.addString(v.Error())
 	case json.Marshaler:
-		return c.addJSONMarshaler(v)
+		c.addJSONMarshaler(v)
 	case encoding.TextMarshaler:
-		return c.addTextMarshaler(v)
+		c.addTextMarshaler(v)
 	default:
 		// Everything else (e.g. an array of strings)
 		// Note: Important stuff buried in some random structure may be ignored.
 		//       For example, a LogValuer or a Stringer might show up as an empty map.
 		if b, err := json.Marshal(a); err != nil {
-			return fmt.Errorf("marshal %v: %w", a, err)
+			c.addString("!ERROR:" + err.Error())
 		} else {
 			c.buffer = append(c.buffer, b...)
-			return nil
 		}
 	}
 	return nil
@@ -304,14 +303,12 @@ func (c *composer) addKey(key string) {
 	c.buffer = append(c.buffer, ':', ' ')
 }
 
-func (c *composer) addJSONMarshaler(m json.Marshaler) error {
+func (c *composer) addJSONMarshaler(m json.Marshaler) {
 	if txt, err := m.MarshalJSON(); err != nil {
 		slog.Error("MarshalJSON error", "err", err)
 		c.addString("!ERROR:" + err.Error())
-		return fmt.Errorf("marshal JSON: %w", err)
 	} else {
 		c.addString(string(txt))
-		return nil
 	}
 }
 
@@ -321,14 +318,12 @@ func (c *composer) addString(str string) {
 	c.buffer = append(c.buffer, '"')
 }
 
-func (c *composer) addTextMarshaler(m encoding.TextMarshaler) error {
+func (c *composer) addTextMarshaler(m encoding.TextMarshaler) {
 	if txt, err := m.MarshalText(); err != nil {
 		slog.Error("MarshalText error", "err", err)
 		c.addString("!ERROR:" + err.Error())
-		return fmt.Errorf("marshal text: %w", err)
 	} else {
 		c.addString(string(txt))
-		return nil
 	}
 }
 
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index ed9a1ef..092ba91 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -174,7 +174,7 @@ func (c *composer) addAny(a any) error {
 		// Note: Important stuff buried in some random structure may be ignored.
 		//       For example, a LogValuer or a Stringer might show up as an empty map.
 		if b, err := json.Marshal(a); err != nil {
-			return fmt.Errorf("marshal %v: %w", a, err)
+			return c.addString("!ERROR:" + err.Error())
 		} else if _, err := c.Write(b); err != nil {
 			return fmt.Errorf("write bytes: %w", err)
 		} else {
-- 
2.43.0


From 9a73b2c913c118fb318cf309a266de91f906626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 15/56] fix: only count members of a top-level 'fields' object

---
 internal/json/field.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/json/field.go b/internal/json/field.go
index ee3f90f..b4f83bd 100644
--- a/internal/json/field.go
+++ b/internal/json/field.go
@@ -177,7 +177,7 @@ func (ctr *FieldCounter) parseArray() error {
 	})
 }
 
-func (ctr *FieldCounter) parseField(field string) error {
+func (ctr *FieldCounter) parseField(field string, countFields bool) error {
 	expectColon := true
 	return ctr.readLoop(func(r rune) error {
 		if unicode.IsSpace(r) {
@@ -192,9 +192,11 @@ func (ctr *FieldCounter) parseField(field string) error {
 		} else if expectColon {
 			return fmt.Errorf(fmtExpectedColon, r)
 		} else if r == '{' {
-			if field == "fields" {
+			if countFields && field == "fields" {
 				// Special case for Apex wherein additional fields are in 'fields' object.
-				delete(ctr.counts, field)
+				if ctr.counts[field]--; ctr.counts[field] == 0 {
+					delete(ctr.counts, field)
+				}
 				return ctr.wrapCallError(ctr.parseObject(true), msgParseObject, true, false)
 			} else {
 				return ctr.wrapCallError(ctr.parseObject(false), msgParseObject, true, false)
@@ -290,7 +292,7 @@ func (ctr *FieldCounter) parseObject(countFields bool) error {
 				ctr.counts[field]++
 			}
 			expectComma = true
-			return ctr.wrapCallError(ctr.parseField(field), msgParseField, false, false)
+			return ctr.wrapCallError(ctr.parseField(field, countFields), msgParseField, false, false)
 		case r == '}':
 			return errFinished
 		default:
-- 
2.43.0


From e8ba4f30e575916198465bbe33eaf565b761867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 16/56] fix: recognize JSON field names however they are
 escaped

---
 internal/json/field.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/json/field.go b/internal/json/field.go
index b4f83bd..a9b5326 100644
--- a/internal/json/field.go
+++ b/internal/json/field.go
@@ -2,6 +2,7 @@ package json
 
 import (
 	"bytes"
+	"encoding/json"
 	"errors"
 	"fmt"
 	"io"
@@ -321,7 +322,15 @@ func (ctr *FieldCounter) parseString() (string, error) {
 			return nil
 		}
 	})
-	return builder.String(), err
+	if err != nil {
+		return "", err
+	}
+	// Resolve escape sequences so that the same name is recognized however it is written.
+	var str string
+	if err = json.Unmarshal([]byte(`"`+builder.String()+`"`), &str); err != nil {
+		return "", fmt.Errorf("unescape string: %w", err)
+	}
+	return str, nil
 }
 
 var goodKeywords = map[string]bool{
-- 
2.43.0


From fc28d4d0bd211861482b7923f1051f6efd98ff8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:32 +0000
Subject: [PATCH 17/56] fix: report truncated JSON in the field counter

---
 internal/json/field.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/json/field.go b/internal/json/field.go
index a9b5326..5422b17 100644
--- a/internal/json/field.go
+++ b/internal/json/field.go
@@ -136,20 +136,19 @@ const (
 
 // Parse the JSON source to count field names.
 func (ctr *FieldCounter) Parse() error {
-	return ctr.readLoop(func(r rune) error {
+	err := ctr.readLoop(func(r rune) error {
 		if unicode.IsSpace(r) {
 			return nil
 		} else if r == '{' {
-			err := ctr.wrapCallError(ctr.parseObject(true), msgParseObject, true, true)
-			if errors.Is(err, io.EOF) {
-				return nil
-			} else {
-				return err
-			}
+			return ctr.wrapCallError(ctr.parseObject(true), msgParseObject, true, true)
 		} else {
 			return errUnexpected(r)
 		}
 	})
+	if err == io.ErrUnexpectedEOF {
+		return nil // There was no object at all.
+	}
+	return err
 }
 
 func (ctr *FieldCounter) parseArray() error {
@@ -382,7 +381,8 @@ func (ctr *FieldCounter) readLoop(fn func(r rune) error) error {
 	for {
 		r, err := ctr.readRune()
 		if errors.Is(err, io.EOF) {
-			break
+			// The object being parsed isn't complete.
+			return io.ErrUnexpectedEOF
 		} else if err != nil {
 			return fmt.Errorf("read rune: %w", err)
 		}
-- 
2.43.0


From bdb92debeced35de9ee864b800dfc8305fdfd720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 18/56] fix: log gin traffic at the configured level

---
 gin/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gin/writer.go b/gin/writer.go
index 6d0ede9..01f1cb4 100644
--- a/gin/writer.go
+++ b/gin/writer.go
@@ -154,7 +154,7 @@ func (w *writer) Write(p []byte) (int, error) {
 			// Use the pre-existing log message in variable msg.
 		} else {
 			// The traffic data in the log message parsed.
-			level = slog.LevelInfo
+			level = w.Traffic.Level
 			msg = w.Traffic.Message
 			if !w.Traffic.Embed {
 				args = []any{slog.Group(w.Traffic.Group, args...)}
-- 
2.43.0


From 83865c1018fc25c4316455d10fc440a39d36234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 19/56] fix: log gin records at any configured level

---
 gin/writer.go | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/gin/writer.go b/gin/writer.go
index 01f1cb4..ac1d3f9 100644
--- a/gin/writer.go
+++ b/gin/writer.go
@@ -1,6 +1,7 @@
 package gin
 
 import (
+	"context"
 	"fmt"
 	"io"
 	"log/slog"
@@ -162,19 +163,7 @@ func (w *writer) Write(p []byte) (int, error) {
 		}
 	}
 
-	switch level {
-	case slog.LevelDebug:
-		slog.Debug(msg, args...)
-	case slog.LevelError:
-		slog.Error(msg, args...)
-	case slog.LevelInfo:
-		slog.Info(msg, args...)
-	case slog.LevelWarn:
-		slog.Warn(msg, args...)
-	default:
-		// Shouldn't ever happen so no test code coverage here.
-		return 0, fmt.Errorf("unknown log level %s", w.Level)
-	}
+	slog.Log(context.Background(), level.Level(), msg, args...)
 
 	return len(p), nil
 }
-- 
2.43.0


From 0585ccc133cf7695ab607d8739821962d38d11ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 20/56] fix: remove the timestamp from gin records of several
 lines

---
 gin/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gin/writer.go b/gin/writer.go
index ac1d3f9..091c477 100644
--- a/gin/writer.go
+++ b/gin/writer.go
@@ -109,7 +109,7 @@ var (
 	ptnGIN, _      = regexp.Compile(`^\s*\[GIN]\s*`)
 	ptnGINdebug, _ = regexp.Compile(`^\s*\[GIN-debug]\s*`)
 	ptnLogLevel, _ = regexp.Compile(`^\s*\[(DEBUG|ERROR|INFO|WARNING|.*)]\s*`)
-	ptnTimePrefix  = regexp.MustCompile(`^\s*\d+/\d+/\d+\s*-\s*\d+:\d+:\d+\s*\|\s*(.+)$`)
+	ptnTimePrefix  = regexp.MustCompile(`(?s)^\s*\d+/\d+/\d+\s*-\s*\d+:\d+:\d+\s*\|\s*(.+)$`)
 )
 
 // Write a block of data to the (supposedly) stream object.
-- 
2.43.0


From 2a9edc7f0a1278ce39e6518caea978fdb36619df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 21/56] fix: parse gin URLs with spaces and quotes, reject
 malformed requests

---
 gin/parser.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/gin/parser.go b/gin/parser.go
index 3df5b7d..0768ead 100644
--- a/gin/parser.go
+++ b/gin/parser.go
@@ -20,8 +20,8 @@ const (
 )
 
 var (
-	ptnCode  = regexp.MustCompile(`^\s*(\d+)\s*$`)
-	ptnSplit = regexp.MustCompile(`\s+`)
+	ptnCode    = regexp.MustCompile(`^\s*(\d+)\s*$`)
+	ptnRequest = regexp.MustCompile(`^\s*(\S+)\s+(\S+|".*")\s*$`)
 )
 
 // Parse a Gin traffic record (specified as message) to return an array of slog.Attr items.
@@ -49,11 +49,17 @@ func Parse(message string) ([]any, error) {
 	result = append(result, slog.String(string(Client), strings.Trim(parts[2], " ")))
 	// Parse HTTP method and URL from fourth part.
 	// Example of parts[3]:
-	//  GET      "/chart.svg?tag=samber_zap&item=MemAllocs" System=gin
-	parts = ptnSplit.Split(strings.Trim(parts[3], " "), -1)
-	if len(parts) == 2 {
-		result = append(result, slog.String(string(Method), parts[0]))
-		result = append(result, slog.String(string(Url), strings.Trim(parts[1], "\"")))
+	//  GET      "/chart.svg?tag=samber_zap&item=MemAllocs"
+	// The URL is quoted and may contain spaces.
+	matches := ptnRequest.FindStringSubmatch(parts[3])
+	if len(matches) != 3 {
+		return nil, fmt.Errorf("parse Method and Url from '%s'", parts[3])
 	}
+	url := matches[2]
+	if len(url) > 1 && url[0] == '"' && url[len(url)-1] == '"' {
+		url = url[1 : len(url)-1]
+	}
+	result = append(result, slog.String(string(Method), matches[1]))
+	result = append(result, slog.String(string(Url), url))
 	return result, nil
 }
-- 
2.43.0


From 9d92f369bf8eef5ecfa46a5966d841195e66fe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:08 +0000
Subject: [PATCH 22/56] fix: reading warnings no longer discards unused notices

---
 infra/warning/manager.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/infra/warning/manager.go b/infra/warning/manager.go
index 2756f48..692b3bf 100644
--- a/infra/warning/manager.go
+++ b/infra/warning/manager.go
@@ -221,31 +221,41 @@ func (mgr *Manager) GetWarnings() []*Instances {
 		return nil
 	}
 
-	if unused, found := mgr.warnings[Unused.Name]; found {
+	// Work on a copy so that reporting does not change what is reported later.
+	found := make(map[string]*Instances, len(mgr.warnings))
+	for name, instances := range mgr.warnings {
+		found[name] = instances
+	}
+	if unused, ok := mgr.warnings[Unused.Name]; ok {
 		// Clean up Unused warning instances.
 		really := make([]Instance, 0)
 		for _, instance := range unused.Data {
-			if _, found := mgr.warnings[instance.Text]; !found {
+			if _, ok := mgr.warnings[instance.Text]; !ok {
 				// OK, there are no such mgr.
 				really = append(really, instance)
 			}
 		}
 		if len(really) > 0 {
-			unused.Data = really
-			unused.Count = uint(len(really))
+			found[Unused.Name] = &Instances{
+				Level:   unused.Level,
+				Name:    unused.Name,
+				Summary: unused.Summary,
+				Count:   uint(len(really)),
+				Data:    really,
+			}
 		} else {
-			delete(mgr.warnings, Unused.Name)
+			delete(found, Unused.Name)
 		}
 	}
 
 	// Sort warning by warning level and string.
-	warningStrings := make([]string, 0, len(mgr.warnings))
-	for w := range mgr.warnings {
+	warningStrings := make([]string, 0, len(found))
+	for w := range found {
 		warningStrings = append(warningStrings, w)
 	}
 	sort.Slice(warningStrings, func(i, j int) bool {
-		iWarning := mgr.warnings[warningStrings[i]]
-		jWarning := mgr.warnings[warningStrings[j]]
+		iWarning := found[warningStrings[i]]
+		jWarning := found[warningStrings[j]]
 		if iWarning.Level > jWarning.Level {
 			return true
 		} else if iWarning.Level < jWarning.Level {
@@ -256,7 +266,7 @@ func (mgr *Manager) GetWarnings() []*Instances {
 
 	warnings := make([]*Instances, len(warningStrings))
 	for i, w := range warningStrings {
-		warnings[i] = mgr.warnings[w]
+		warnings[i] = found[w]
 	}
 	return warnings
 }
-- 
2.43.0


From faa1641b79860071ba874e23fec1dac20e29e25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:33 +0000
Subject: [PATCH 23/56] fix: list handlers by warning in order and without
 crashing on warnings that weren't predefined

---
 infra/warning/manager.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/infra/warning/manager.go b/infra/warning/manager.go
index 692b3bf..6097826 100644
--- a/infra/warning/manager.go
+++ b/infra/warning/manager.go
@@ -316,11 +316,16 @@ func (mgr *Manager) ShowWarnings(output io.Writer) {
 				_, _ = fmt.Fprintf(output, "%s  %s\n", mgr.showPrefix, level.String())
 				for _, w := range list {
 					// Track handlers that invoke warning for use in TestMain.
-					warn := mgr.predefined[w.Name]
-					if byWarning[warn] == nil {
-						byWarning[warn] = make(map[string]bool)
+					warn, found := mgr.predefined[w.Name]
+					if !found {
+						warn = ByName(w.Name)
+					}
+					if warn != nil {
+						if byWarning[warn] == nil {
+							byWarning[warn] = make(map[string]bool)
+						}
+						byWarning[warn][mgr.Name] = true
 					}
-					byWarning[warn][mgr.Name] = true
 
 					_, _ = fmt.Fprintf(output, "%s  %4d [%s] %s\n", mgr.showPrefix, w.Count, w.Name, w.Summary)
 					lineSep := "\n" + mgr.showPrefix + "           +"
@@ -372,6 +377,7 @@ func ShowHandlersByWarning(showPrefix string) {
 				for handler := range handlers {
 					hdlrNames = append(hdlrNames, handler)
 				}
+				sort.Strings(hdlrNames)
 				for _, hdlrName := range hdlrNames {
 					fmt.Printf("%s      %s\n", showPrefix, hdlrName)
 				}
-- 
2.43.0


From 9d43cc9d3b127b6e4d059af2751a41960625b2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:13 +0000
Subject: [PATCH 24/56] fix: an empty warning report no longer discards the
 warnings of other reports

---
 internal/data/warnings_parser.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 03c7563..33b98d3 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -88,6 +88,7 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 
 		if matches := ptnWarningsFor.FindSubmatch(line); len(matches) == 2 {
 			saveInstance(line)
+			dWarning = nil
 			handler = HandlerTag(matches[1])
 			// Capture relationship between handler name in benchmark function vs. Creator.
 			// The handler string here is the Creator name,
@@ -148,9 +149,13 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 		}
 		if ptnNone.Match(line) {
 			// Minimal amount of data to support score chart.
-			w.ByHandler[handler] = &Levels{
-				lookup: make(map[string]*DataLevel),
-				levels: make([]*DataLevel, 0),
+			// There may already be warnings for the handler from another source.
+			saveInstance(line)
+			if !w.HasHandler(handler) {
+				w.ByHandler[handler] = &Levels{
+					lookup: make(map[string]*DataLevel),
+					levels: make([]*DataLevel, 0),
+				}
 			}
 			continue
 		}
-- 
2.43.0


From 8eaf84a7df7fc498d1c6414588ed212fa475ffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:13 +0000
Subject: [PATCH 25/56] fix: a log line outside of any warning instance no
 longer crashes the parser

---
 internal/data/warnings_parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 33b98d3..53aed32 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -178,6 +178,10 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 		}
 		// Do this before ptnInstance as they can otherwise get confused.
 		if ptnLogLine.Match(line) {
+			if instance == nil {
+				slog.Warn("Log line without instance", "line", string(line))
+				continue
+			}
 			instance.line = string(line)
 			// Attempt to pretty-print the log line.
 			var jm map[string]any
-- 
2.43.0


From e31036abf7c7bea40756effe74be521342a19fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 26/56] fix: the end of a handler summary is no longer parsed
 as a warning instance

---
 internal/data/warnings_parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 53aed32..b27026c 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -142,6 +142,9 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 					break
 				}
 			}
+			if ptnSummaryEnd.Match(line) {
+				continue
+			}
 		}
 		if handler == "" {
 			// Can't do anything until we recognize something.
-- 
2.43.0


From 9794f1ca7e834bf237fd4cc5edac89605d454c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:15 +0000
Subject: [PATCH 27/56] fix: parse warning summaries with brackets and texts
 that start with a line break

---
 internal/data/warnings_parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index b27026c..e4b56b5 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -20,8 +20,8 @@ import (
 var (
 	ptnWarningsFor  = regexp.MustCompile(`^\s*Warnings\s+for\s+(.*):\s*$`)
 	ptnLevel        = regexp.MustCompile(`^\s*(\S+)\s*$`)
-	ptnWarning      = regexp.MustCompile(`^\s*\d+\s+\[(.*)]\s*(.*?)\s*$`)
-	ptnInstance     = regexp.MustCompile(`^\s*(\S+)(?::\s*(.*?))?\s*$`)
+	ptnWarning      = regexp.MustCompile(`^\s*\d+\s+\[(.*?)]\s*(.*?)\s*$`)
+	ptnInstance     = regexp.MustCompile(`^\s*([^\s:]+)(?::\s*(.*?))?\s*$`)
 	ptnExtra        = regexp.MustCompile(`^\s*\+(.*?)\s*$`)
 	ptnLogLine      = regexp.MustCompile(`^\s*\{`)
 	ptnNone         = regexp.MustCompile(`^\s*None\s*$`)
-- 
2.43.0


From e5005a4fa961667c1d358c9b54811409b64915d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 28/56] fix: keep the log line of warnings grouped by test when
 it isn't valid JSON

---
 internal/data/warnings_parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index e4b56b5..c8df8b3 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -68,6 +68,7 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 					&dataInstance{
 						name:  handler.Name(),
 						extra: instance.extra,
+						line:  instance.line,
 						log:   instance.log,
 					})
 				wd := w.FindWarning(dWarning.warning.name)
-- 
2.43.0


From e8ecd7b19cd177b708ba2e1c28731fd3c3c4414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:42 +0000
Subject: [PATCH 29/56] fix: handler summaries with empty lines are parsed to
 the end

---
 internal/data/warnings_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index c8df8b3..81e06a0 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -27,7 +27,7 @@ var (
 	ptnNone         = regexp.MustCompile(`^\s*None\s*$`)
 	ptnByWarning    = regexp.MustCompile(`^\s*Handlers\s+by\s+warning:\s*$`)
 	ptnSummaryStart = regexp.MustCompile(`^:\[\s*(\S.*?)\s*$`)
-	ptnSummaryLine  = regexp.MustCompile(`^::\s*(\S.*?)\s*$`)
+	ptnSummaryLine  = regexp.MustCompile(`^::\s*(.*?)\s*$`)
 	ptnSummaryLink  = regexp.MustCompile(`^:>\s*(\S.*?)\s*-->\s*(\S.*?)\s*$`)
 	ptnSummaryEnd   = regexp.MustCompile(`^:]\s*$`)
 )
-- 
2.43.0


From 16374e3f026edc169909819ad152b2deb211133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 30/56] fix: log records of several lines survive warning
 reports

---
 infra/warning/manager.go         |  3 ++-
 internal/data/warnings.go        | 13 +++++++++++++
 internal/data/warnings_parser.go | 15 +++++----------
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/infra/warning/manager.go b/infra/warning/manager.go
index 6097826..678af3f 100644
--- a/infra/warning/manager.go
+++ b/infra/warning/manager.go
@@ -337,7 +337,8 @@ func (mgr *Manager) ShowWarnings(output io.Writer) {
 							_, _ = fmt.Fprintf(output, "%s         %s\n", mgr.showPrefix, data.Function)
 						}
 						if data.Record != "" {
-							_, _ = fmt.Fprintf(output, "%s           %s\n", mgr.showPrefix, data.Record)
+							_, _ = fmt.Fprintf(output, "%s           %s\n", mgr.showPrefix,
+								strings.Join(strings.Split(data.Record, "\n"), lineSep))
 						}
 					}
 				}
diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 9390806..4900c07 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -1,6 +1,7 @@
 package data
 
 import (
+	"encoding/json"
 	"flag"
 	"fmt"
 	"html/template"
@@ -448,6 +449,18 @@ func (di *dataInstance) ExtraHTML() template.HTML {
 	return x
 }
 
+// setLine sets the log record and attempts to pretty-print it.
+func (di *dataInstance) setLine(line string) {
+	di.line = line
+	di.log = ""
+	var jm map[string]any
+	if json.Unmarshal([]byte(line), &jm) == nil {
+		if indented, err := json.MarshalIndent(jm, "", "\t"); err == nil {
+			di.log = string(indented)
+		}
+	}
+}
+
 func (di *dataInstance) Line() string {
 	return di.line
 }
diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 81e06a0..bc4ca62 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -3,7 +3,6 @@ package data
 import (
 	"bufio"
 	"bytes"
-	"encoding/json"
 	"errors"
 	"fmt"
 	"io"
@@ -186,18 +185,14 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 				slog.Warn("Log line without instance", "line", string(line))
 				continue
 			}
-			instance.line = string(line)
-			// Attempt to pretty-print the log line.
-			var jm map[string]any
-			if json.Unmarshal(line, &jm) == nil {
-				if indented, err := json.MarshalIndent(jm, "", "\t"); err == nil {
-					instance.log = string(indented)
-				}
-			}
+			instance.setLine(string(line))
 			continue
 		}
 		if matches := ptnExtra.FindSubmatch(line); len(matches) == 2 {
-			if instance != nil {
+			if instance != nil && instance.line != "" {
+				// Further line of the log record.
+				instance.setLine(instance.line + "\n" + string(matches[1]))
+			} else if instance != nil {
 				instance.extra = instance.extra + "\n" + string(matches[1])
 			}
 			continue
-- 
2.43.0


From faa7c1f4ecf9268b1a55b89bbe1db7c0fc53ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:44 +0000
Subject: [PATCH 31/56] fix: accept long lines in benchmark and warning data

---
 internal/data/bench_parser.go    | 4 ++++
 internal/data/warnings_parser.go | 1 +
 2 files changed, 5 insertions(+)

diff --git a/internal/data/bench_parser.go b/internal/data/bench_parser.go
index f061cc7..0a875c4 100644
--- a/internal/data/bench_parser.go
+++ b/internal/data/bench_parser.go
@@ -9,6 +9,9 @@ import (
 	"strconv"
 )
 
+// maxLineLength is the size of the longest line accepted in input data.
+const maxLineLength = 64 * 1024 * 1024
+
 var (
 	ptnHandlerDef = regexp.MustCompile(`^#\s*Handler\[(\S+)\]\s*=\s*"(\S+)"\s*$`)
 	ptnWarnLine   = regexp.MustCompile(`^# (.*)`)
@@ -38,6 +41,7 @@ func (b *Benchmarks) ParseBenchmarkData(in io.Reader) error {
 		}
 	}
 	scanner := bufio.NewScanner(in)
+	scanner.Buffer(nil, maxLineLength)
 
 	for scanner.Scan() {
 		var ok bool
diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index bc4ca62..61ff480 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -49,6 +49,7 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 		}
 	}
 	scanner := bufio.NewScanner(in)
+	scanner.Buffer(nil, maxLineLength)
 
 	var handler HandlerTag
 	var test TestTag
-- 
2.43.0


From 925dff9171266a877722a6042efec5ecedfa1694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 32/56] fix: benchmark records by handler lacked GB/s and TB/s

---
 internal/data/bench_parser.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/internal/data/bench_parser.go b/internal/data/bench_parser.go
index 0a875c4..915b2da 100644
--- a/internal/data/bench_parser.go
+++ b/internal/data/bench_parser.go
@@ -119,13 +119,7 @@ func (b *Benchmarks) ParseBenchmarkData(in io.Reader) error {
 			if b.ByHandler[handler] == nil {
 				b.ByHandler[handler] = make(TestRecords)
 			}
-			b.ByHandler[handler][test] = TestRecord{
-				Runs:           runs,
-				NanosPerOp:     nsOps,
-				MemBytesPerOp:  bytesOp,
-				MemAllocsPerOp: allocsOp,
-				MbPerSec:       mbSec,
-			}
+			b.ByHandler[handler][test] = b.byTest[test][handler]
 		}
 	}
 	if scanner.Err() != nil {
-- 
2.43.0


From dd30fb74f8603096bbbb9f21000eb7a610306be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 33/56] fix: parse benchmark lines of single CPU runs

---
 internal/data/bench_parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/data/bench_parser.go b/internal/data/bench_parser.go
index 915b2da..0bd12c1 100644
--- a/internal/data/bench_parser.go
+++ b/internal/data/bench_parser.go
@@ -15,7 +15,7 @@ const maxLineLength = 64 * 1024 * 1024
 var (
 	ptnHandlerDef = regexp.MustCompile(`^#\s*Handler\[(\S+)\]\s*=\s*"(\S+)"\s*$`)
 	ptnWarnLine   = regexp.MustCompile(`^# (.*)`)
-	ptnDataLine   = regexp.MustCompile(`^Benchmark([^/]+)/Benchmark([^-]+)-(\d+)\s+(\d+)\s+(\d+(?:\.\d+)?)\s+ns/op\b`)
+	ptnDataLine   = regexp.MustCompile(`^Benchmark([^/]+)/Benchmark([^-\s]+)(?:-(\d+))?\s+(\d+)\s+(\d+(?:\.\d+)?)\s+ns/op\b`)
 	ptnAllocsOp   = regexp.MustCompile(`\s(\d+)\s+allocs/op\b`)
 	ptnBytesOp    = regexp.MustCompile(`\s(\d+)\s+B/op\b`)
 	ptnMbSec      = regexp.MustCompile(`\s(\d+(?:\.\d+)?)\s+MB/s`)
@@ -66,7 +66,10 @@ func (b *Benchmarks) ParseBenchmarkData(in io.Reader) error {
 			// Process a data line.
 			hdlrBytes = matches[1]
 			testBytes = matches[2]
-			if cpus, err = strconv.ParseUint(string(matches[3]), 10, 64); err != nil {
+			cpus = 1 // No CPU count is written for a single CPU.
+			if len(matches[3]) == 0 {
+				// Use default value.
+			} else if cpus, err = strconv.ParseUint(string(matches[3]), 10, 64); err != nil {
 				return fmt.Errorf("parse cpus: %w", err)
 			}
 			if runs, err = strconv.ParseUint(string(matches[4]), 10, 64); err != nil {
-- 
2.43.0


From 8fd97c336d0e8aabbdea9944aca686db62433c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:32 +0000
Subject: [PATCH 34/56] fix: benchmark and warning data can be queried
 concurrently and after parsing more data

---
 internal/data/bench.go           |  43 ++++------
 internal/data/tags.go            |  26 +++---
 internal/data/warnings.go        | 142 +++++++++++++------------------
 internal/data/warnings_parser.go |   1 -
 4 files changed, 89 insertions(+), 123 deletions(-)

diff --git a/internal/data/bench.go b/internal/data/bench.go
index d51e926..13cf1c0 100644
--- a/internal/data/bench.go
+++ b/internal/data/bench.go
@@ -61,13 +61,10 @@ func (tr *TestRecord) ItemValue(item BenchItems) float64 {
 type Benchmarks struct {
 	byTest       map[TestTag]HandlerRecords
 	ByHandler    map[HandlerTag]TestRecords
-	tests        []TestTag
-	handlers     []HandlerTag
 	testNames    map[TestTag]string
 	testCPUs     map[TestTag]uint64
 	handlerNames map[HandlerTag]string
 	warningText  []byte
-	lookup       map[string]HandlerTag
 }
 
 func NewBenchmarks() *Benchmarks {
@@ -100,13 +97,11 @@ func (b *Benchmarks) HasTest(tag TestTag) bool {
 // where it will be used to convert handler names to tags.
 // This makes all handler tags the same between Benchmarks and Warnings.
 func (b *Benchmarks) HandlerLookup() map[string]HandlerTag {
-	if b.lookup == nil {
-		b.lookup = make(map[string]HandlerTag, len(b.handlerNames))
-		for tag, name := range b.handlerNames {
-			b.lookup[name] = tag
-		}
+	lookup := make(map[string]HandlerTag, len(b.handlerNames))
+	for tag, name := range b.handlerNames {
+		lookup[name] = tag
 	}
-	return b.lookup
+	return lookup
 }
 
 // HandlerName returns the full name associated with a HandlerTag.
@@ -126,15 +121,14 @@ func (b *Benchmarks) HandlerRecordsFor(test TestTag) HandlerRecords {
 
 // HandlerTags returns an array of all handler tags sorted alphabetically.
 func (b *Benchmarks) HandlerTags() []HandlerTag {
-	if b.handlers == nil {
-		for handler := range b.ByHandler {
-			b.handlers = append(b.handlers, handler)
-		}
-		sort.Slice(b.handlers, func(i, j int) bool {
-			return b.HandlerName(b.handlers[i]) < b.HandlerName(b.handlers[j])
-		})
+	handlers := make([]HandlerTag, 0, len(b.ByHandler))
+	for handler := range b.ByHandler {
+		handlers = append(handlers, handler)
 	}
-	return b.handlers
+	sort.Slice(handlers, func(i, j int) bool {
+		return b.HandlerName(handlers[i]) < b.HandlerName(handlers[j])
+	})
+	return handlers
 }
 
 // TestName returns the full name associated with a TestTag.
@@ -154,15 +148,14 @@ func (b *Benchmarks) TestRecordsFor(handler HandlerTag) TestRecords {
 
 // TestTags returns an array of all test names sorted alphabetically.
 func (b *Benchmarks) TestTags() []TestTag {
-	if b.tests == nil {
-		for test := range b.byTest {
-			b.tests = append(b.tests, test)
-		}
-		sort.Slice(b.tests, func(i, j int) bool {
-			return b.TestName(b.tests[i]) < b.TestName(b.tests[j])
-		})
+	tests := make([]TestTag, 0, len(b.byTest))
+	for test := range b.byTest {
+		tests = append(tests, test)
 	}
-	return b.tests
+	sort.Slice(tests, func(i, j int) bool {
+		return b.TestName(tests[i]) < b.TestName(tests[j])
+	})
+	return tests
 }
 
 // HasWarningText from end of benchmark run.
diff --git a/internal/data/tags.go b/internal/data/tags.go
index 1c31fc1..e6608c9 100644
--- a/internal/data/tags.go
+++ b/internal/data/tags.go
@@ -2,6 +2,7 @@ package data
 
 import (
 	"strings"
+	"sync"
 
 	"github.com/fatih/camelcase"
 )
@@ -17,12 +18,13 @@ const TagSeparator = "."
 // The type is an alias for string so that types can't be confused.
 type TestTag string
 
-var testTagNames = make(map[TestTag]string)
+var testTagNames sync.Map // TestTag to string
 
 // Name returns a name string calculated from the TestTag string and cached for reuse.
 func (tt TestTag) Name() string {
-	name, found := testTagNames[tt]
-	if !found {
+	if name, found := testTagNames.Load(tt); found {
+		return name.(string)
+	} else {
 		var builder strings.Builder
 		tagString := string(tt)
 		if parts := strings.Split(string(tt), TagSeparator); len(parts) == 2 {
@@ -34,11 +36,9 @@ func (tt TestTag) Name() string {
 			}
 			builder.WriteString(part)
 		}
-		name = builder.String()
-		testTagNames[tt] = name
+		testTagNames.Store(tt, builder.String())
+		return builder.String()
 	}
-	return name
-
 }
 
 // -----------------------------------------------------------------------------
@@ -47,12 +47,13 @@ func (tt TestTag) Name() string {
 // The type is an alias for string so that types can't be confused.
 type HandlerTag string
 
-var handlerTagNames = make(map[HandlerTag]string)
+var handlerTagNames sync.Map // HandlerTag to string
 
 // Name returns a name string calculated from the HandlerTag string and cached for reuse.
 func (ht HandlerTag) Name() string {
-	name, found := handlerTagNames[ht]
-	if !found {
+	if name, found := handlerTagNames.Load(ht); found {
+		return name.(string)
+	} else {
 		var builder strings.Builder
 		tagString := string(ht)
 		for _, part := range camelcase.Split(tagString) {
@@ -61,8 +62,7 @@ func (ht HandlerTag) Name() string {
 			}
 			builder.WriteString(part)
 		}
-		name = builder.String()
-		handlerTagNames[ht] = name
+		handlerTagNames.Store(ht, builder.String())
+		return builder.String()
 	}
-	return name
 }
diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 4900c07..38dcb04 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -8,6 +8,7 @@ import (
 	"regexp"
 	"sort"
 	"strings"
+	"sync"
 
 	"github.com/madkins23/go-slog/infra/warning"
 	"github.com/madkins23/go-slog/internal/markdown"
@@ -28,10 +29,9 @@ type Warnings struct {
 	byTest      map[TestTag]*Levels
 	ByHandler   map[HandlerTag]*Levels
 	ByWarning   map[string]*WarningData
-	tests       []TestTag
-	handlers    []HandlerTag
 	handlerData map[HandlerTag]*handlerData
 	testNames   map[TestTag]string
+	warningLock sync.Mutex // guards ByWarning
 }
 
 func NewWarnings() *Warnings {
@@ -39,8 +39,6 @@ func NewWarnings() *Warnings {
 		byTest:      make(map[TestTag]*Levels),
 		ByHandler:   make(map[HandlerTag]*Levels),
 		ByWarning:   make(map[string]*WarningData),
-		tests:       make([]TestTag, 0),
-		handlers:    make([]HandlerTag, 0),
 		handlerData: make(map[HandlerTag]*handlerData),
 		testNames:   make(map[TestTag]string),
 	}
@@ -104,20 +102,19 @@ func (w *Warnings) HandlerLinks(handler HandlerTag) map[string]string {
 
 // HandlerTags returns an array of all handler names sorted alphabetically.
 func (w *Warnings) HandlerTags() []HandlerTag {
-	if len(w.handlers) < 1 {
-		for handler := range w.ByHandler {
-			w.handlers = append(w.handlers, handler)
-		}
-		sort.Slice(w.handlers, func(i, j int) bool {
-			return w.HandlerName(w.handlers[i]) < w.HandlerName(w.handlers[j])
-		})
+	handlers := make([]HandlerTag, 0, len(w.ByHandler))
+	for handler := range w.ByHandler {
+		handlers = append(handlers, handler)
 	}
-	return w.handlers
+	sort.Slice(handlers, func(i, j int) bool {
+		return w.HandlerName(handlers[i]) < w.HandlerName(handlers[j])
+	})
+	return handlers
 }
 
 // HandlerWarningCount returns the number of the specified warning associated with the specified handler.
 func (w *Warnings) HandlerWarningCount(handler HandlerTag, warning *warning.Warning) uint {
-	return w.ByWarning[warning.Name].Count[handler]
+	return w.FindWarning(warning.Name).Count[handler]
 }
 
 // HasTest returns true if a test is defined with the specified tag.
@@ -148,15 +145,14 @@ func (w *Warnings) TestRecordsFor(handler HandlerTag) *Levels {
 
 // TestTags returns an array of all handler names sorted alphabetically.
 func (w *Warnings) TestTags() []TestTag {
-	if len(w.tests) < 1 {
-		for test := range w.byTest {
-			w.tests = append(w.tests, test)
-		}
-		sort.Slice(w.tests, func(i, j int) bool {
-			return w.TestName(w.tests[i]) < w.TestName(w.tests[j])
-		})
+	tests := make([]TestTag, 0, len(w.byTest))
+	for test := range w.byTest {
+		tests = append(tests, test)
 	}
-	return w.tests
+	sort.Slice(tests, func(i, j int) bool {
+		return w.TestName(tests[i]) < w.TestName(tests[j])
+	})
+	return tests
 }
 
 // TestTagsForSource returns an array of all test names for the specified source sorted alphabetically.
@@ -164,8 +160,9 @@ func (w *Warnings) TestTagsForSource(source string) []TestTag {
 	if !strings.HasSuffix(source, ":") {
 		source += TagSeparator
 	}
-	result := make([]TestTag, 0, len(w.TestTags())) // Causes w.tests to be loaded
-	for _, test := range w.tests {
+	tests := w.TestTags()
+	result := make([]TestTag, 0, len(tests))
+	for _, test := range tests {
 		if strings.HasPrefix(string(test), source) {
 			result = append(result, test)
 		}
@@ -180,7 +177,6 @@ func (w *Warnings) findHandler(handler HandlerTag, level warning.Level, warningN
 	if !ok {
 		levels = &Levels{
 			lookup: make(map[string]*DataLevel),
-			levels: make([]*DataLevel, 0),
 		}
 		w.ByHandler[handler] = levels
 	}
@@ -192,7 +188,6 @@ func (w *Warnings) findTest(test TestTag, level warning.Level, warningName strin
 	if !ok {
 		levels = &Levels{
 			lookup: make(map[string]*DataLevel),
-			levels: make([]*DataLevel, 0),
 		}
 		w.byTest[test] = levels
 	}
@@ -205,6 +200,8 @@ func (w *Warnings) findTest(test TestTag, level warning.Level, warningName strin
 //
 // This method is public so that it can be used during template expansion in cmd/server.
 func (w *Warnings) FindWarning(name string) *WarningData {
+	w.warningLock.Lock()
+	defer w.warningLock.Unlock()
 	data, found := w.ByWarning[name]
 	if !found {
 		data = &WarningData{
@@ -234,11 +231,9 @@ func (w *Warnings) getHandlerData(handler HandlerTag) *handlerData {
 // This type is public so that it can be used during template expansion in cmd/server.
 // Methods for WarningData are largely public as well for the same reason.
 type WarningData struct {
-	Count    map[HandlerTag]uint
-	hdlrMap  map[HandlerTag]bool
-	handlers []HandlerTag
-	testMap  map[TestTag]bool
-	tests    []TestTag
+	Count   map[HandlerTag]uint
+	hdlrMap map[HandlerTag]bool
+	testMap map[TestTag]bool
 }
 
 func (wd *WarningData) HasHandlers() bool {
@@ -246,15 +241,12 @@ func (wd *WarningData) HasHandlers() bool {
 }
 
 func (wd *WarningData) Handlers() []HandlerTag {
-	if wd.handlers == nil {
-		wd.handlers = make([]HandlerTag, 0, len(wd.hdlrMap))
-		for key := range wd.hdlrMap {
-			wd.handlers = append(wd.handlers, key)
-		}
-		sort.Slice(wd.handlers, func(i, j int) bool { return wd.handlers[i].Name() < wd.handlers[j].Name() })
+	handlers := make([]HandlerTag, 0, len(wd.hdlrMap))
+	for key := range wd.hdlrMap {
+		handlers = append(handlers, key)
 	}
-
-	return wd.handlers
+	sort.Slice(handlers, func(i, j int) bool { return handlers[i].Name() < handlers[j].Name() })
+	return handlers
 }
 
 func (wd *WarningData) HasTests() bool {
@@ -262,15 +254,12 @@ func (wd *WarningData) HasTests() bool {
 }
 
 func (wd *WarningData) Tests() []TestTag {
-	if wd.tests == nil {
-		wd.tests = make([]TestTag, 0, len(wd.testMap))
-		for key := range wd.testMap {
-			wd.tests = append(wd.tests, key)
-		}
-		sort.Slice(wd.tests, func(i, j int) bool { return wd.tests[i].Name() < wd.tests[j].Name() })
+	tests := make([]TestTag, 0, len(wd.testMap))
+	for key := range wd.testMap {
+		tests = append(tests, key)
 	}
-
-	return wd.tests
+	sort.Slice(tests, func(i, j int) bool { return tests[i].Name() < tests[j].Name() })
+	return tests
 }
 
 func (wd *WarningData) HasUsage() bool {
@@ -281,7 +270,6 @@ func (wd *WarningData) HasUsage() bool {
 
 type Levels struct {
 	lookup map[string]*DataLevel
-	levels []*DataLevel
 }
 
 func (l *Levels) Level(level warning.Level) *DataLevel {
@@ -297,15 +285,13 @@ func (l *Levels) LevelCount(level warning.Level) uint64 {
 }
 
 func (l *Levels) Levels() []*DataLevel {
-	if len(l.levels) < 1 {
-		l.levels = make([]*DataLevel, 0, len(warning.LevelOrder))
-		for _, lvl := range warning.LevelOrder {
-			if lv, ok := l.lookup[lvl.String()]; ok {
-				l.levels = append(l.levels, lv)
-			}
+	levels := make([]*DataLevel, 0, len(warning.LevelOrder))
+	for _, lvl := range warning.LevelOrder {
+		if lv, ok := l.lookup[lvl.String()]; ok {
+			levels = append(levels, lv)
 		}
 	}
-	return l.levels
+	return levels
 }
 
 func (l *Levels) findLevel(lvl warning.Level, warningName string) *dataWarning {
@@ -323,9 +309,8 @@ func (l *Levels) findLevel(lvl warning.Level, warningName string) *dataWarning {
 // -----------------------------------------------------------------------------
 
 type DataLevel struct {
-	Level    warning.Level
-	lookup   map[string]*dataWarning
-	warnings []*dataWarning
+	Level  warning.Level
+	lookup map[string]*dataWarning
 }
 
 func (l *DataLevel) Count() uint64 {
@@ -337,20 +322,18 @@ func (l *DataLevel) Name() string {
 }
 
 func (l *DataLevel) String() string {
-	return fmt.Sprintf("Level:%s=%d", l.Name(), len(l.warnings))
+	return fmt.Sprintf("Level:%s=%d", l.Name(), len(l.lookup))
 }
 
 func (l *DataLevel) Warnings() []*dataWarning {
-	if l.warnings == nil {
-		l.warnings = make([]*dataWarning, 0, len(l.lookup))
-		for _, w := range l.lookup {
-			l.warnings = append(l.warnings, w)
-		}
-		sort.Slice(l.warnings, func(i, j int) bool {
-			return l.warnings[i].warning.name < l.warnings[j].warning.name
-		})
+	warnings := make([]*dataWarning, 0, len(l.lookup))
+	for _, w := range l.lookup {
+		warnings = append(warnings, w)
 	}
-	return l.warnings
+	sort.Slice(warnings, func(i, j int) bool {
+		return warnings[i].warning.name < warnings[j].warning.name
+	})
+	return warnings
 }
 
 func (l *DataLevel) findWarningGroup(warningName string) *dataWarning {
@@ -370,10 +353,8 @@ func (l *DataLevel) findWarningGroup(warningName string) *dataWarning {
 type dataWarning struct {
 	warning struct {
 		name, summary string
-		instance      *warning.Warning
 	}
 	instances []*dataInstance
-	sorted    bool
 }
 
 func (w *dataWarning) Name() string {
@@ -381,17 +362,11 @@ func (w *dataWarning) Name() string {
 }
 
 func (w *dataWarning) HasDescription() bool {
-	if w.warning.instance == nil {
-		w.warning.instance = warning.ByName(w.warning.name)
-	}
-	return w.warning.instance.HasDescription()
+	return warning.ByName(w.warning.name).HasDescription()
 }
 
 func (w *dataWarning) Description() template.HTML {
-	if w.warning.instance == nil {
-		w.warning.instance = warning.ByName(w.warning.name)
-	}
-	return w.warning.instance.Description()
+	return warning.ByName(w.warning.name).Description()
 }
 
 func (w *dataWarning) Summary() string {
@@ -403,13 +378,12 @@ func (w *dataWarning) AddInstance(instance *dataInstance) {
 }
 
 func (w *dataWarning) Instances() []*dataInstance {
-	if !w.sorted {
-		sort.Slice(w.instances, func(i, j int) bool {
-			return w.instances[i].name < w.instances[j].name
-		})
-		w.sorted = true
-	}
-	return w.instances
+	instances := make([]*dataInstance, len(w.instances))
+	copy(instances, w.instances)
+	sort.SliceStable(instances, func(i, j int) bool {
+		return instances[i].name < instances[j].name
+	})
+	return instances
 }
 
 // -----------------------------------------------------------------------------
diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 61ff480..07bcf5f 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -158,7 +158,6 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 			if !w.HasHandler(handler) {
 				w.ByHandler[handler] = &Levels{
 					lookup: make(map[string]*DataLevel),
-					levels: make([]*DataLevel, 0),
 				}
 			}
 			continue
-- 
2.43.0


From 7a4ba166dbb4403dd5030ef254e070cde64f5997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 35/56] fix: Markdown can be rendered concurrently

---
 internal/markdown/html.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/internal/markdown/html.go b/internal/markdown/html.go
index fbf3c4e..b9bdba6 100644
--- a/internal/markdown/html.go
+++ b/internal/markdown/html.go
@@ -9,13 +9,6 @@ import (
 	"github.com/gomarkdown/markdown/parser"
 )
 
-var renderer *html.Renderer
-
-func init() {
-	// Prebuild the HTML renderer.
-	renderer = html.NewRenderer(html.RendererOptions{Flags: html.HrefTargetBlank})
-}
-
 // TemplateHTML renders Markdown into template.HTML suitable for use in cmd/server.
 // Embedded Markdown in Go code blocks is typically quoted using back quotes ("`")
 // which are used within Markdown for fixed font markup.
@@ -26,7 +19,8 @@ func init() {
 // Set fixCarets to true for use with back quoted strings with carets,
 // false for use with embedded Markdown files containing back quotes.
 func TemplateHTML(md string, fixCarets bool) template.HTML {
-	// Can't pre-build the parser in init(), it fails the second time it's used.
+	// Can't pre-build the renderer or the parser in init(), they keep state between uses.
+	renderer := html.NewRenderer(html.RendererOptions{Flags: html.HrefTargetBlank})
 	mdParser := parser.NewWithExtensions(
 		parser.CommonExtensions | parser.AutoHeadingIDs | parser.NoEmptyLineBeforeBlock)
 	if fixCarets {
-- 
2.43.0


From 256647053ad6ad5b492f799270e200abe86d77b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:50 +0000
Subject: [PATCH 36/56] Revert "fix: reading warnings no longer discards unused
 notices"

This reverts commit 9d92f369bf8eef5ecfa46a5966d841195e66fe12.
---
 infra/warning/manager.go | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/infra/warning/manager.go b/infra/warning/manager.go
index 678af3f..c0c8f61 100644
--- a/infra/warning/manager.go
+++ b/infra/warning/manager.go
@@ -221,41 +221,31 @@ func (mgr *Manager) GetWarnings() []*Instances {
 		return nil
 	}
 
-	// Work on a copy so that reporting does not change what is reported later.
-	found := make(map[string]*Instances, len(mgr.warnings))
-	for name, instances := range mgr.warnings {
-		found[name] = instances
-	}
-	if unused, ok := mgr.warnings[Unused.Name]; ok {
+	if unused, found := mgr.warnings[Unused.Name]; found {
 		// Clean up Unused warning instances.
 		really := make([]Instance, 0)
 		for _, instance := range unused.Data {
-			if _, ok := mgr.warnings[instance.Text]; !ok {
+			if _, found := mgr.warnings[instance.Text]; !found {
 				// OK, there are no such mgr.
 				really = append(really, instance)
 			}
 		}
 		if len(really) > 0 {
-			found[Unused.Name] = &Instances{
-				Level:   unused.Level,
-				Name:    unused.Name,
-				Summary: unused.Summary,
-				Count:   uint(len(really)),
-				Data:    really,
-			}
+			unused.Data = really
+			unused.Count = uint(len(really))
 		} else {
-			delete(found, Unused.Name)
+			delete(mgr.warnings, Unused.Name)
 		}
 	}
 
 	// Sort warning by warning level and string.
-	warningStrings := make([]string, 0, len(found))
-	for w := range found {
+	warningStrings := make([]string, 0, len(mgr.warnings))
+	for w := range mgr.warnings {
 		warningStrings = append(warningStrings, w)
 	}
 	sort.Slice(warningStrings, func(i, j int) bool {
-		iWarning := found[warningStrings[i]]
-		jWarning := found[warningStrings[j]]
+		iWarning := mgr.warnings[warningStrings[i]]
+		jWarning := mgr.warnings[warningStrings[j]]
 		if iWarning.Level > jWarning.Level {
 			return true
 		} else if iWarning.Level < jWarning.Level {
@@ -266,7 +256,7 @@ func (mgr *Manager) GetWarnings() []*Instances {
 
 	warnings := make([]*Instances, len(warningStrings))
 	for i, w := range warningStrings {
-		warnings[i] = found[w]
+		warnings[i] = mgr.warnings[w]
 	}
 	return warnings
 }
-- 
2.43.0


From 08fca250aa41e18cff205a4016ca5a54125fa3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 37/56] fix: list handlers and tests with the same name in a
 fixed order

---
 internal/data/bench.go    |  4 ++--
 internal/data/tags.go     | 11 +++++++++++
 internal/data/warnings.go |  8 ++++----
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/internal/data/bench.go b/internal/data/bench.go
index 13cf1c0..05da020 100644
--- a/internal/data/bench.go
+++ b/internal/data/bench.go
@@ -126,7 +126,7 @@ func (b *Benchmarks) HandlerTags() []HandlerTag {
 		handlers = append(handlers, handler)
 	}
 	sort.Slice(handlers, func(i, j int) bool {
-		return b.HandlerName(handlers[i]) < b.HandlerName(handlers[j])
+		return lessByName(b.HandlerName, handlers[i], handlers[j])
 	})
 	return handlers
 }
@@ -153,7 +153,7 @@ func (b *Benchmarks) TestTags() []TestTag {
 		tests = append(tests, test)
 	}
 	sort.Slice(tests, func(i, j int) bool {
-		return b.TestName(tests[i]) < b.TestName(tests[j])
+		return lessByName(b.TestName, tests[i], tests[j])
 	})
 	return tests
 }
diff --git a/internal/data/tags.go b/internal/data/tags.go
index e6608c9..23b6cc5 100644
--- a/internal/data/tags.go
+++ b/internal/data/tags.go
@@ -66,3 +66,14 @@ func (ht HandlerTag) Name() string {
 		return builder.String()
 	}
 }
+
+// -----------------------------------------------------------------------------
+
+// lessByName compares tags by the name the specified function returns for them,
+// tags with the same name (e.g. the same test in different sources) by themselves.
+func lessByName[T TestTag | HandlerTag](name func(T) string, a, b T) bool {
+	if nameA, nameB := name(a), name(b); nameA != nameB {
+		return nameA < nameB
+	}
+	return a < b
+}
diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 38dcb04..3f60b97 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -107,7 +107,7 @@ func (w *Warnings) HandlerTags() []HandlerTag {
 		handlers = append(handlers, handler)
 	}
 	sort.Slice(handlers, func(i, j int) bool {
-		return w.HandlerName(handlers[i]) < w.HandlerName(handlers[j])
+		return lessByName(w.HandlerName, handlers[i], handlers[j])
 	})
 	return handlers
 }
@@ -150,7 +150,7 @@ func (w *Warnings) TestTags() []TestTag {
 		tests = append(tests, test)
 	}
 	sort.Slice(tests, func(i, j int) bool {
-		return w.TestName(tests[i]) < w.TestName(tests[j])
+		return lessByName(w.TestName, tests[i], tests[j])
 	})
 	return tests
 }
@@ -245,7 +245,7 @@ func (wd *WarningData) Handlers() []HandlerTag {
 	for key := range wd.hdlrMap {
 		handlers = append(handlers, key)
 	}
-	sort.Slice(handlers, func(i, j int) bool { return handlers[i].Name() < handlers[j].Name() })
+	sort.Slice(handlers, func(i, j int) bool { return lessByName(HandlerTag.Name, handlers[i], handlers[j]) })
 	return handlers
 }
 
@@ -258,7 +258,7 @@ func (wd *WarningData) Tests() []TestTag {
 	for key := range wd.testMap {
 		tests = append(tests, key)
 	}
-	sort.Slice(tests, func(i, j int) bool { return tests[i].Name() < tests[j].Name() })
+	sort.Slice(tests, func(i, j int) bool { return lessByName(TestTag.Name, tests[i], tests[j]) })
 	return tests
 }
 
-- 
2.43.0


From d107d55cdb572ecf81a25a3892e565eb7ef9476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 38/56] fix: a test or measure in which all handlers are equal
 no longer turns benchmark scores into NaN

---
 internal/scoring/axis/bench/original.go |  8 +++++---
 internal/scoring/axis/benchmarks.go     | 10 ++++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/internal/scoring/axis/bench/original.go b/internal/scoring/axis/bench/original.go
index bbf18d1..448cd01 100644
--- a/internal/scoring/axis/bench/original.go
+++ b/internal/scoring/axis/bench/original.go
@@ -71,8 +71,10 @@ func (o *Original) HandlerTest(test data.TestTag, record data.TestRecord) {
 		o.collect += score.Value(float64(o.weight[Nanoseconds]) * 100.0 * (rngTest.nanosHigh - record.NanosPerOp) / scoreRange)
 		o.count += o.weight[Nanoseconds]
 	}
-	o.total += o.collect / score.Value(o.count)
-	o.tests++
+	if o.count > 0 {
+		o.total += o.collect / score.Value(o.count)
+		o.tests++
+	}
 }
 
 // CheckRanges checks the ranges contained in this Original object to the ranges
@@ -97,7 +99,7 @@ func (o *Original) CheckRanges(ranges map[data.TestTag]map[Weight]common.Range)
 // CheckTest checks the data for the specified handler and test agains the HandlerData.
 // If the values differ by too much an error is logged.
 func (o *Original) CheckTest(handlerData *HandlerData, test data.TestTag) {
-	if !common.PercentEqual(o.collect/score.Value(o.count), handlerData.ByTest(test).Average()) {
+	if o.count > 0 && !common.PercentEqual(o.collect/score.Value(o.count), handlerData.ByTest(test).Average()) {
 		slog.Error("collect comparison", "Original", o.collect/score.Value(o.count), "by Test", handlerData.ByTest(test).Average())
 	}
 	if o.count != handlerData.ByTest(test).Count {
diff --git a/internal/scoring/axis/benchmarks.go b/internal/scoring/axis/benchmarks.go
index 2ed837a..fff7171 100644
--- a/internal/scoring/axis/benchmarks.go
+++ b/internal/scoring/axis/benchmarks.go
@@ -106,7 +106,10 @@ func (b *Benchmarks) Setup(benchMarks *data.Benchmarks, _ *data.Warnings) error
 					}
 				}
 				// Newer algorithm.
-				handlerData.Rollup(bench.OverTests).Add(handlerData.ByTest(test).Average())
+				// If all handlers are equal there is no score for the test.
+				if byTest := handlerData.ByTest(test); byTest.Count > 0 {
+					handlerData.Rollup(bench.OverTests).Add(byTest.Average())
+				}
 				original.CheckTest(handlerData, test)
 			}
 		}
@@ -116,7 +119,10 @@ func (b *Benchmarks) Setup(benchMarks *data.Benchmarks, _ *data.Warnings) error
 		handlerData.SetScore(score.ByTest, handlerData.Rollup(bench.OverTests).Average())
 		// Newer algorithm rollup over BenchWeight subs
 		for _, weight := range bench.WeightOrder {
-			handlerData.Rollup(bench.OverData).AddMultiple(handlerData.SubScore(weight).Average(), b.benchWeight[weight])
+			// If all handlers are equal in every test there is no score for the weight.
+			if subScore := handlerData.SubScore(weight); subScore.Count > 0 {
+				handlerData.Rollup(bench.OverData).AddMultiple(subScore.Average(), b.benchWeight[weight])
+			}
 		}
 		handlerData.SetScore(score.ByData, handlerData.Rollup(bench.OverData).Average())
 		original.CheckTotal(handlerData)
-- 
2.43.0


From 97d3186ef1a3f61168b6c807ff4fb146c33ded40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 39/56] fix: scores of very large measures no longer exceed 100

---
 internal/scoring/axis/common/range.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/scoring/axis/common/range.go b/internal/scoring/axis/common/range.go
index 1a62ccc..c57ab7b 100644
--- a/internal/scoring/axis/common/range.go
+++ b/internal/scoring/axis/common/range.go
@@ -86,7 +86,8 @@ func (r *RangeUint64) AddValueUint64(val uint64) {
 }
 
 func (r *RangeUint64) Length() float64 {
-	return float64(r.high - r.low)
+	// Subtract what RangedValue() subtracts, which may be rounded for large numbers.
+	return float64(r.high) - float64(r.low)
 }
 
 func (r *RangeUint64) RangedValue(from float64) score.Value {
-- 
2.43.0


From 42f5a8ef7073360aefa0c6bbfbfc87fe1238aff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 40/56] fix: warning scores no longer leave the range 0 to 100
 for warnings that are not predefined

---
 internal/scoring/axis/warn/data.go     | 15 +++++++++++++++
 internal/scoring/axis/warn/original.go | 10 +---------
 internal/scoring/axis/warnings.go      |  9 +--------
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/internal/scoring/axis/warn/data.go b/internal/scoring/axis/warn/data.go
index e00c6f9..32e56d5 100644
--- a/internal/scoring/axis/warn/data.go
+++ b/internal/scoring/axis/warn/data.go
@@ -2,6 +2,7 @@ package warn
 
 import (
 	"github.com/madkins23/go-slog/infra/warning"
+	"github.com/madkins23/go-slog/internal/data"
 	"github.com/madkins23/go-slog/internal/scoring/axis/common"
 	"github.com/madkins23/go-slog/internal/scoring/score"
 )
@@ -36,6 +37,20 @@ func (hd *HandlerData) ByLevel(level warning.Level) *score.Average {
 	return hd.byLevel[level]
 }
 
+// CountForLevel returns the number of different warnings that handlers have at the specified level.
+// These need not be warnings that are defined in the current code.
+func CountForLevel(warns *data.Warnings, level warning.Level) uint {
+	names := make(map[string]bool)
+	for _, hdlr := range warns.HandlerTags() {
+		if dataLevel := warns.ForHandler(hdlr).Level(level); dataLevel != nil {
+			for _, w := range dataLevel.Warnings() {
+				names[w.Name()] = true
+			}
+		}
+	}
+	return uint(len(names))
+}
+
 /*
    Detail Table
      per hdlr
diff --git a/internal/scoring/axis/warn/original.go b/internal/scoring/axis/warn/original.go
index e96f0cd..76a3880 100644
--- a/internal/scoring/axis/warn/original.go
+++ b/internal/scoring/axis/warn/original.go
@@ -44,15 +44,7 @@ func (o *Original) CheckMaxScore(maxScore uint) {
 
 func (o *Original) MakeMaxScore() {
 	for _, level := range warning.LevelOrder {
-		var count uint
-		for _, warn := range warning.WarningsForLevel(level) {
-			if wx, found := o.warns.ByWarning[warn.Name]; found {
-				if len(wx.Count) > 0 {
-					count++
-				}
-			}
-		}
-		o.maxScore += o.weight[level] * count
+		o.maxScore += o.weight[level] * CountForLevel(o.warns, level)
 	}
 }
 
diff --git a/internal/scoring/axis/warnings.go b/internal/scoring/axis/warnings.go
index 63e34c2..7b8168c 100644
--- a/internal/scoring/axis/warnings.go
+++ b/internal/scoring/axis/warnings.go
@@ -55,14 +55,7 @@ func (w *Warnings) Setup(_ *data.Benchmarks, warns *data.Warnings) error {
 	var maxScore uint
 	ranges := make(map[warning.Level]common.Range)
 	for _, level := range warning.LevelOrder {
-		var count uint
-		for _, wrn := range warning.WarningsForLevel(level) {
-			if wx, found := warns.ByWarning[wrn.Name]; found {
-				if len(wx.Count) > 0 {
-					count++
-				}
-			}
-		}
+		count := warn.CountForLevel(warns, level)
 		ranges[level] = &common.RangeUint64{}
 		ranges[level].AddValueUint64(uint64(count))
 		maxScore += w.levelWeight[level] * count
-- 
2.43.0


From 8ec93bbd4fe49fbc1112efa78be1db46435e07e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 41/56] fix: reading scores no longer creates missing entries,
 which isn't safe for concurrent requests

---
 internal/scoring/axis/benchmarks.go  |  9 ++++-----
 internal/scoring/axis/common/data.go |  9 +++++++++
 internal/scoring/axis/warn/data.go   |  9 +++++++++
 internal/scoring/score/keeper.go     | 10 +++++-----
 4 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/internal/scoring/axis/benchmarks.go b/internal/scoring/axis/benchmarks.go
index fff7171..d88eead 100644
--- a/internal/scoring/axis/benchmarks.go
+++ b/internal/scoring/axis/benchmarks.go
@@ -155,10 +155,8 @@ func (b *Benchmarks) Name() string {
 
 func (b *Benchmarks) HasTest(test data.TestTag) bool {
 	for _, hdlr := range b.handlerData {
-		if average := hdlr.ByTest(test); average != nil {
-			if average.Count > 0 {
-				return true
-			}
+		if average := hdlr.TestScore(test); average.Count > 0 {
+			return true
 		}
 	}
 	return false
@@ -169,7 +167,8 @@ func (b *Benchmarks) ScoreFor(handler data.HandlerTag) score.Value {
 }
 
 func (b *Benchmarks) ScoreForTest(handler data.HandlerTag, test data.TestTag) score.Value {
-	return b.handlerData[handler].ByTest(test).Average()
+	average := b.handlerData[handler].TestScore(test)
+	return average.Average()
 }
 
 func (b *Benchmarks) ScoreForType(handler data.HandlerTag, scoreType score.Type) score.Value {
diff --git a/internal/scoring/axis/common/data.go b/internal/scoring/axis/common/data.go
index a0a8834..e5f3e2c 100644
--- a/internal/scoring/axis/common/data.go
+++ b/internal/scoring/axis/common/data.go
@@ -24,6 +24,15 @@ func (hd *HandlerData) ByTest(test data.TestTag) *score.Average {
 	return hd.byTest[test]
 }
 
+// TestScore returns a copy of the score for the specified test.
+// Unlike ByTest this does not create missing data so it can be used concurrently.
+func (hd *HandlerData) TestScore(test data.TestTag) score.Average {
+	if average := hd.byTest[test]; average != nil {
+		return *average
+	}
+	return score.Average{}
+}
+
 func (hd *HandlerData) Score(scoreType score.Type) score.Value {
 	return hd.scores[scoreType]
 }
diff --git a/internal/scoring/axis/warn/data.go b/internal/scoring/axis/warn/data.go
index 32e56d5..d62d417 100644
--- a/internal/scoring/axis/warn/data.go
+++ b/internal/scoring/axis/warn/data.go
@@ -37,6 +37,15 @@ func (hd *HandlerData) ByLevel(level warning.Level) *score.Average {
 	return hd.byLevel[level]
 }
 
+// LevelScore returns a copy of the score for the specified level.
+// Unlike ByLevel this does not create missing data so it can be used concurrently.
+func (hd *HandlerData) LevelScore(level warning.Level) score.Average {
+	if average := hd.byLevel[level]; average != nil {
+		return *average
+	}
+	return score.Average{}
+}
+
 // CountForLevel returns the number of different warnings that handlers have at the specified level.
 // These need not be warnings that are defined in the current code.
 func CountForLevel(warns *data.Warnings, level warning.Level) uint {
diff --git a/internal/scoring/score/keeper.go b/internal/scoring/score/keeper.go
index af96567..3de6c63 100644
--- a/internal/scoring/score/keeper.go
+++ b/internal/scoring/score/keeper.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"html/template"
 	"sort"
+	"sync"
 
 	"github.com/madkins23/go-slog/internal/data"
 	"github.com/madkins23/go-slog/internal/markdown"
@@ -112,15 +113,14 @@ func (k *Keeper) Summary() template.HTML {
 var (
 	//go:embed doc/overview.md
 	overviewMD   string
-	overviewHTML template.HTML
+	overviewHTML = sync.OnceValue(func() template.HTML {
+		return markdown.TemplateHTML(overviewMD, false)
+	})
 )
 
 // Overview returns documentation applicable to all scorekeepers.
 func (k *Keeper) Overview() template.HTML {
-	if overviewHTML == "" {
-		overviewHTML = markdown.TemplateHTML(overviewMD, false)
-	}
-	return overviewHTML
+	return overviewHTML()
 }
 
 func (k *Keeper) Axes() map[string]Axis {
-- 
2.43.0


From ee50bfeca36472b751f11be3230a6b682dc3c4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 42/56] fix: warning scores of handlers without warning data or
 with no weights are 100 instead of a crash or NaN

---
 internal/scoring/axis/warnings.go | 32 ++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/internal/scoring/axis/warnings.go b/internal/scoring/axis/warnings.go
index 7b8168c..76266cb 100644
--- a/internal/scoring/axis/warnings.go
+++ b/internal/scoring/axis/warnings.go
@@ -84,7 +84,11 @@ func (w *Warnings) Setup(_ *data.Benchmarks, warns *data.Warnings) error {
 			byData.AddMultiple(hdlrData.ByLevel(level).Average(), w.levelWeight[level])
 		}
 		// Set the scores.
-		hdlrData.SetScore(score.ByData, byData.Average())
+		if byData.Count > 0 {
+			hdlrData.SetScore(score.ByData, byData.Average())
+		} else {
+			hdlrData.SetScore(score.ByData, 100.0) // No level has any weight.
+		}
 		hdlrData.SetScore(score.Default, hdlrData.Score(score.ByData))
 		hdlrData.SetScore(score.Original, original.Score(hdlr))
 	}
@@ -109,7 +113,11 @@ func (w *Warnings) HasTest(_ data.TestTag) bool {
 }
 
 func (w *Warnings) CountForLevel(handler data.HandlerTag, level warning.Level) score.Value {
-	return score.Value(w.handlerData[handler].CountFor(level))
+	hdlrData := w.handlerData[handler]
+	if hdlrData == nil {
+		return 0 // No warning data for the handler.
+	}
+	return score.Value(hdlrData.CountFor(level))
 }
 
 func (w *Warnings) ScoreFor(handler data.HandlerTag) score.Value {
@@ -117,23 +125,29 @@ func (w *Warnings) ScoreFor(handler data.HandlerTag) score.Value {
 }
 
 func (w *Warnings) ScoreForLevel(handler data.HandlerTag, level warning.Level) score.Value {
-	result := w.handlerData[handler].ByLevel(level)
-	if result.Count > 0 {
-		return result.Average()
+	if hdlrData := w.handlerData[handler]; hdlrData != nil {
+		if result := hdlrData.LevelScore(level); result.Count > 0 {
+			return result.Average()
+		}
 	}
 	return 100
 }
 
 func (w *Warnings) ScoreForTest(handler data.HandlerTag, test data.TestTag) score.Value {
-	result := w.handlerData[handler].ByTest(test)
-	if result.Count > 0 {
-		return result.Average()
+	if hdlrData := w.handlerData[handler]; hdlrData != nil {
+		if result := hdlrData.TestScore(test); result.Count > 0 {
+			return result.Average()
+		}
 	}
 	return 100
 }
 
 func (w *Warnings) ScoreForType(handler data.HandlerTag, scoreType score.Type) score.Value {
-	return w.handlerData[handler].Score(scoreType)
+	hdlrData := w.handlerData[handler]
+	if hdlrData == nil {
+		return 100 // No warning data for the handler.
+	}
+	return hdlrData.Score(scoreType)
 }
 
 func (w *Warnings) Documentation() template.HTML {
-- 
2.43.0


From fc9a330a67cb78258ef283e3f880adaa362c35fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 43/56] fix: keepers no longer apply their handler filter to
 test names

---
 internal/scoring/score/keeper.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/scoring/score/keeper.go b/internal/scoring/score/keeper.go
index 3de6c63..50dceba 100644
--- a/internal/scoring/score/keeper.go
+++ b/internal/scoring/score/keeper.go
@@ -70,9 +70,8 @@ func (k *Keeper) Setup(bench *data.Benchmarks, warns *data.Warnings) error {
 	}
 	for _, test := range bench.TestTags() {
 		if bench.HasTest(test) {
-			if k.filter == nil || k.filter.Keep(warns.TestName(test)) {
-				k.tests = append(k.tests, test)
-			}
+			// The filter is for handlers, not tests.
+			k.tests = append(k.tests, test)
 		}
 	}
 	return nil
-- 
2.43.0


From aca99add5fb324f549ce73e4706664392541540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 44/56] fix: keepers filter handlers by their benchmark name,
 which doesn't need warning data

---
 internal/scoring/score/keeper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/scoring/score/keeper.go b/internal/scoring/score/keeper.go
index 50dceba..2848eea 100644
--- a/internal/scoring/score/keeper.go
+++ b/internal/scoring/score/keeper.go
@@ -64,7 +64,7 @@ func (k *Keeper) Setup(bench *data.Benchmarks, warns *data.Warnings) error {
 	k.handlers = make([]data.HandlerTag, 0)
 	k.tests = make([]data.TestTag, 0)
 	for _, hdlr := range bench.HandlerTags() {
-		if k.filter == nil || k.filter.Keep(warns.HandlerName(hdlr)) {
+		if k.filter == nil || k.filter.Keep(bench.HandlerName(hdlr)) {
 			k.handlers = append(k.handlers, hdlr)
 		}
 	}
-- 
2.43.0


From 8c4aaa392a043e6f420b26c48cb4b731978a0e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 45/56] fix: a keeper with an empty tag no longer crashes the
 list of keepers

---
 internal/scoring/score/keeper.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/internal/scoring/score/keeper.go b/internal/scoring/score/keeper.go
index 2848eea..c7d9da4 100644
--- a/internal/scoring/score/keeper.go
+++ b/internal/scoring/score/keeper.go
@@ -5,13 +5,14 @@ import (
 	"fmt"
 	"html/template"
 	"sort"
+	"strings"
 	"sync"
 
 	"github.com/madkins23/go-slog/internal/data"
 	"github.com/madkins23/go-slog/internal/markdown"
 )
 
-const specialChar = '+'
+const specialPrefix = "+"
 
 type KeeperTag string
 
@@ -165,12 +166,10 @@ func Keepers() []KeeperTag {
 			keeperTags = append(keeperTags, tag)
 		}
 		sort.Slice(keeperTags, func(i, j int) bool {
-			if keeperTags[i][0] == specialChar {
-				if keeperTags[j][0] != specialChar {
-					return false
-				}
-			} else if keeperTags[j][0] == specialChar {
-				return true
+			iSpecial := strings.HasPrefix(string(keeperTags[i]), specialPrefix)
+			jSpecial := strings.HasPrefix(string(keeperTags[j]), specialPrefix)
+			if iSpecial != jSpecial {
+				return jSpecial
 			}
 			return keeperTags[i] < keeperTags[j]
 		})
-- 
2.43.0


From 472209e4d3a5b6a764388630a159bb08d734e210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 46/56] fix: default handler names keep a first letter that
 isn't ASCII intact

---
 internal/data/warnings_parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 07bcf5f..e32747d 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"regexp"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/madkins23/go-slog/infra/warning"
 )
@@ -104,8 +105,8 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 				slog.Warn("Default handler name", "handler", handler)
 				parts := strings.Split(string(handler), "/")
 				for i, part := range parts {
-					if len(part) > 0 {
-						parts[i] = strings.ToUpper(part[:1]) + strings.ToLower(part[1:])
+					if _, size := utf8.DecodeRuneInString(part); size > 0 {
+						parts[i] = strings.ToUpper(part[:size]) + strings.ToLower(part[size:])
 					}
 				}
 				w.getHandlerData(handler).name = strings.Join(parts, " ")
-- 
2.43.0


From e469ee1d4f1b0da5ebb9b6b79684510881772c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 47/56] fix: show the text of warning instances in pages as
 text, not as HTML

---
 internal/data/warnings.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 3f60b97..c5cc289 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -413,7 +413,10 @@ func (di *dataInstance) ExtraHTML() template.HTML {
 				// Error from slog/slogtest.
 				line = fmt.Sprintf(
 					"%s<br/><a href=\"%s/%s;l=%s\">%s</a>",
-					matches[1], srcRoot, matches[3], matches[4], matches[2])
+					template.HTMLEscapeString(matches[1]), srcRoot, template.HTMLEscapeString(matches[3]),
+					matches[4], template.HTMLEscapeString(matches[2]))
+			} else {
+				line = template.HTMLEscapeString(line)
 			}
 			lines[i] = "<p>" + line + "</p>"
 		}
-- 
2.43.0


From 60a21fcdea982f23c013e6b1ad2ee5ef1670ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 48/56] fix: make log records that aren't JSON visible in pages

---
 internal/data/warnings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index c5cc289..1dfb871 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -443,7 +443,7 @@ func (di *dataInstance) Line() string {
 }
 
 func (di *dataInstance) HasLog() bool {
-	return len(strings.Trim(di.log, " ")) > 0
+	return len(strings.Trim(di.Log(), " ")) > 0
 }
 
 func (di *dataInstance) Log() string {
-- 
2.43.0


From 1aff1c69ddcc9b680f6b25e16ab1b6c6e2fd9e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 49/56] fix: keep all fields and digits of log records that are
 pretty-printed

---
 internal/data/warnings.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 1dfb871..b4fbfc3 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -1,6 +1,7 @@
 package data
 
 import (
+	"bytes"
 	"encoding/json"
 	"flag"
 	"fmt"
@@ -432,8 +433,10 @@ func (di *dataInstance) setLine(line string) {
 	di.log = ""
 	var jm map[string]any
 	if json.Unmarshal([]byte(line), &jm) == nil {
-		if indented, err := json.MarshalIndent(jm, "", "\t"); err == nil {
-			di.log = string(indented)
+		// Don't marshal the map as that loses duplicate fields, their order, and digits of numbers.
+		var indented bytes.Buffer
+		if err := json.Indent(&indented, []byte(line), "", "\t"); err == nil {
+			di.log = indented.String()
 		}
 	}
 }
-- 
2.43.0


From e0b2a63c3c493935b3d7a351e7161257b91c483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 50/56] fix: make the log button of a warning instance show the
 log of that instance

---
 cmd/server/parts/warnings.gohtml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/server/parts/warnings.gohtml b/cmd/server/parts/warnings.gohtml
index 5a235cd..de3c45e 100644
--- a/cmd/server/parts/warnings.gohtml
+++ b/cmd/server/parts/warnings.gohtml
@@ -29,7 +29,7 @@
                 <td colspan=3>
                   <table class="instance">
                     {{ range $index, $instance := $warning.Instances }}
-                      {{ $id := printf "%v-%v" $warning.Name $instance.Name }}
+                      {{ $id := printf "%v-%v-%v" $level.Name $warning.Name $index }}
                       {{ if eq (mod $index 2) 0 }}
                         {{ $color = "cornsilk" }}
                       {{ else }}
-- 
2.43.0


From 5610e008657865b954065d4465944e6fc0e777ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 51/56] fix: show names in page titles as text, not as HTML

---
 cmd/server/pages/handler.gohtml | 2 +-
 cmd/server/pages/test.gohtml    | 2 +-
 cmd/server/pages/text.gohtml    | 2 +-
 cmd/server/server.go            | 1 +
 4 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/server/pages/handler.gohtml b/cmd/server/pages/handler.gohtml
index fd8d073..5152c17 100644
--- a/cmd/server/pages/handler.gohtml
+++ b/cmd/server/pages/handler.gohtml
@@ -9,7 +9,7 @@
 <div class="wrapper">
   <div class="header">
     {{ $name := .Benchmarks.HandlerName .Handler }}
-    {{ template "partHeader" dict "top" $ "title" (printf "Handler <span class=\"fixed\">%s</span>" $name) }}
+    {{ template "partHeader" dict "top" $ "title" (printf "Handler <span class=\"fixed\">%s</span>" (escape $name)) }}
   </div>
   <div class="content">
     <div>
diff --git a/cmd/server/pages/test.gohtml b/cmd/server/pages/test.gohtml
index d413c83..4acbf6b 100644
--- a/cmd/server/pages/test.gohtml
+++ b/cmd/server/pages/test.gohtml
@@ -14,7 +14,7 @@
     {{ else }}
       {{ $name = .Warnings.TestName .Test }}
     {{ end }}
-    {{ template "partHeader" dict "top" $ "title" (printf "Test <span class=\"fixed\">%s</span>" $name) }}
+    {{ template "partHeader" dict "top" $ "title" (printf "Test <span class=\"fixed\">%s</span>" (escape $name)) }}
   </div>
   <div class="content">
     <div>
diff --git a/cmd/server/pages/text.gohtml b/cmd/server/pages/text.gohtml
index 8adcaf0..bbc5256 100644
--- a/cmd/server/pages/text.gohtml
+++ b/cmd/server/pages/text.gohtml
@@ -8,7 +8,7 @@
 <body>
 <div class="wrapper">
   <div class="header">
-    {{ template "partHeader" dict "top" $ "title" (printf "Text File <span class=\"fixed\">%s</span>" $.Item.Name) }}
+    {{ template "partHeader" dict "top" $ "title" (printf "Text File <span class=\"fixed\">%s</span>" (escape $.Item.Name)) }}
   </div>
   <div class="text-summary">{{ $.Item.Summary }}</div>
   <div class="text">{{ $.Item.Data }}</div>
diff --git a/cmd/server/server.go b/cmd/server/server.go
index 612d018..64f9474 100644
--- a/cmd/server/server.go
+++ b/cmd/server/server.go
@@ -469,6 +469,7 @@ func functions() map[string]any {
 			result := score.List(name...)
 			return result
 		},
+		"escape": template.HTMLEscapeString,
 		"unescape": func(s string) template.HTML {
 			return template.HTML(s)
 		},
-- 
2.43.0


From cc47287c02a2abf65577e0f7bfac0717b6435a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 52/56] fix: show text files as text, not as HTML

---
 cmd/server/text.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/server/text.go b/cmd/server/text.go
index f182c8e..55993c6 100644
--- a/cmd/server/text.go
+++ b/cmd/server/text.go
@@ -39,7 +39,7 @@ func NewTextCache(items ...*TextItem) *TextCache {
 			slog.Warn("Unable to load text file",
 				"Path", item.Path, "error", err.Error())
 		} else if len(data) > 0 {
-			item.Data = template.HTML(data)
+			item.Data = template.HTML(template.HTMLEscapeString(string(data)))
 			tc.cache[item.Name] = item
 			tc.names = append(tc.names, item.Name)
 		} else {
@@ -65,7 +65,7 @@ func (tc *TextCache) TextItem(path string) *TextItem {
 		item = &TextItem{
 			Path:    path,
 			Summary: "Text Not Found",
-			Data:    template.HTML("Path: " + path),
+			Data:    template.HTML("Path: " + template.HTMLEscapeString(path)),
 		}
 	}
 	return item
-- 
2.43.0


From 31b3bab79f071b4b843c7ebc76844a300c6a2bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 53/56] fix: place and name handlers without warning data in
 score charts as in score tables

---
 cmd/server/chart/score.go | 31 ++++++++++++++-----------------
 cmd/server/server.go      |  2 +-
 2 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/cmd/server/chart/score.go b/cmd/server/chart/score.go
index ab655b1..18ab90d 100644
--- a/cmd/server/chart/score.go
+++ b/cmd/server/chart/score.go
@@ -119,7 +119,7 @@ var sizes = []*sizeData{
 
 // Score generates an SVG chart for the score visualization and
 // uses the gin.Context argument to send the SVG data back to the user's browser.
-func Score(c *gin.Context, warns *data.Warnings) {
+func Score(c *gin.Context, bench *data.Benchmarks) {
 	size := scoreChartSize(c)
 	cacheKey := "score:" + c.Param("keeper")
 	cacheKey = cacheKey + ":" + strconv.Itoa(size)
@@ -127,7 +127,7 @@ func Score(c *gin.Context, warns *data.Warnings) {
 	ch, found := Cache[cacheKey]
 	CacheMutex.Unlock()
 	keeper := score.GetKeeper(score.KeeperTag(c.Param("keeper")))
-	chartData := newChartData(keeper, warns, sizes[size])
+	chartData := newChartData(keeper, bench, sizes[size])
 	if !found {
 		graph := chartData.generate()
 		var buf bytes.Buffer
@@ -183,16 +183,16 @@ type scoreChartData struct {
 	items    []scoreChartDataItem
 	series   []chart.Series
 	size     *sizeData
-	warns    *data.Warnings
+	bench    *data.Benchmarks
 }
 
-func newChartData(keeper *score.Keeper, warns *data.Warnings, size *sizeData) *scoreChartData {
+func newChartData(keeper *score.Keeper, bench *data.Benchmarks, size *sizeData) *scoreChartData {
 	cd := &scoreChartData{
 		handlers: make(map[data.HandlerTag]*handlerCoords),
 		keeper:   keeper,
 		series:   make([]chart.Series, 0, 6),
 		size:     size,
-		warns:    warns,
+		bench:    bench,
 	}
 	// Initializes a map from data.HandlerTag to *handlerCoords.
 	// Handler records are only used if the handler scores are within the size of the chart.
@@ -202,17 +202,14 @@ func newChartData(keeper *score.Keeper, warns *data.Warnings, size *sizeData) *s
 			cd.handlers[hdlr] = &handlerCoords{y: cd.keeper.Y().ScoreFor(hdlr)}
 		}
 	}
-	for _, hdlr := range cd.warns.HandlerTags() {
-		// Only add value if there is already a benchmark score.
-		if coords, found := cd.handlers[hdlr]; found {
-			// Only add x-value if it is within bounds (above size.low.x).
-			if cd.keeper.X().ScoreFor(hdlr) >= cd.size.low.x {
-				coords.x = cd.keeper.X().ScoreFor(hdlr)
-			} else {
-				// The x-value is out of bounds but y-value was in bounds,
-				// remove handler record previously added.
-				delete(cd.handlers, hdlr)
-			}
+	for hdlr, coords := range cd.handlers {
+		// Only add x-value if it is within bounds (above size.low.x).
+		if cd.keeper.X().ScoreFor(hdlr) >= cd.size.low.x {
+			coords.x = cd.keeper.X().ScoreFor(hdlr)
+		} else {
+			// The x-value is out of bounds but y-value was in bounds,
+			// remove handler record previously added.
+			delete(cd.handlers, hdlr)
 		}
 	}
 	cd.items = make([]scoreChartDataItem, 0, len(cd.handlers)+1)
@@ -293,7 +290,7 @@ func (cd *scoreChartData) dataMarkers() {
 			x := float64(coords.x)
 			y := float64(coords.y)
 			cd.items = append(cd.items, scoreChartDataItem{
-				label: cd.warns.HandlerName(hdlr),
+				label: cd.bench.HandlerName(hdlr),
 				x:     x,
 				y:     y,
 			})
diff --git a/cmd/server/server.go b/cmd/server/server.go
index 64f9474..f5544f0 100644
--- a/cmd/server/server.go
+++ b/cmd/server/server.go
@@ -505,5 +505,5 @@ func barChart(c *gin.Context) {
 
 // scoreChart generates an SVG chart for the specified score Data.
 func scoreChart(c *gin.Context) {
-	chart.Score(c, warns)
+	chart.Score(c, bench)
 }
-- 
2.43.0


From 644fd9640f290483e2e2631e82126b17df8add0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 54/56] fix: load the chart font before charts are drawn at the
 same time

---
 cmd/server/chart/score.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/server/chart/score.go b/cmd/server/chart/score.go
index 18ab90d..8512ba6 100644
--- a/cmd/server/chart/score.go
+++ b/cmd/server/chart/score.go
@@ -117,6 +117,15 @@ var sizes = []*sizeData{
 	},
 }
 
+// init loads the default font before any chart is drawn.
+// The chart package loads it on first use without synchronizing later readers,
+// which is a data race when the first charts are requested at the same time.
+func init() {
+	if _, err := chart.GetDefaultFont(); err != nil {
+		slog.Warn("load default chart font", "err", err)
+	}
+}
+
 // Score generates an SVG chart for the score visualization and
 // uses the gin.Context argument to send the SVG data back to the user's browser.
 func Score(c *gin.Context, bench *data.Benchmarks) {
-- 
2.43.0


From 9cf66a48e0e9623302e815a8b51abc27b9d51c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:21 +0000
Subject: [PATCH 55/56] fix: let samber/slog-zap loggers follow changes of
 their level

---
 creator/samberzap/creator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/creator/samberzap/creator.go b/creator/samberzap/creator.go
index e2dc348..97c73d4 100644
--- a/creator/samberzap/creator.go
+++ b/creator/samberzap/creator.go
@@ -39,7 +39,10 @@ func handlerFn(w io.Writer, options *slog.HandlerOptions) slog.Handler {
 		Logger: zap.New(zapcore.NewCore(
 			zapcore.NewJSONEncoder(productionCfg),
 			zapcore.AddSync(w),
-			zap.NewAtomicLevelAt(utilzap.ConvertLevelToZap(level.Level())))),
+			// The level may be changed later so it must be read for every record.
+			zap.LevelEnablerFunc(func(l zapcore.Level) bool {
+				return l >= utilzap.ConvertLevelToZap(level.Level())
+			}))),
 		Converter:   nil,
 		AddSource:   options.AddSource,
 		ReplaceAttr: options.ReplaceAttr,
-- 
2.43.0


From cf3e410cfc039c2a46401838fe91187c014547cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:21 +0000
Subject: [PATCH 56/56] fix: let samber/slog-logrus loggers follow changes of
 their level

---
 creator/samberlogrus/creator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/creator/samberlogrus/creator.go b/creator/samberlogrus/creator.go
index f9ef176..fe7fa70 100644
--- a/creator/samberlogrus/creator.go
+++ b/creator/samberlogrus/creator.go
@@ -31,7 +31,8 @@ func handlerFn(w io.Writer, options *slog.HandlerOptions) slog.Handler {
 		level = slog.LevelInfo
 	}
 	log := logrus.New()
-	log.SetLevel(utillogrus.ConvertSlogLevel2Logrus(level.Level()))
+	// The level may be changed later so it is the handler that checks it for every record.
+	log.SetLevel(utillogrus.ConvertSlogLevel2Logrus(slog.LevelDebug))
 	log.SetOutput(w)
 	log.SetFormatter(&logrus.JSONFormatter{})
 	return slogrus.Option{
-- 
2.43.0

