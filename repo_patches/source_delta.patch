From 19e608eb912286dac4dd88c892c2aed2847271f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 01/14] fix: stop processing an event once it is dropped or
 cancelled

Drop had a value receiver, so it had no effect, and nothing looked at the
cancelled flag.
---
 cmd/sawmill/sawmill.go    |  5 +++++
 pkg/pipeline/event.go     |  7 ++++++-
 pkg/pipeline/pipeline.go  |  6 ++++++
 pkg/pipeline/processor.go | 19 +++++++++++++------
 4 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/cmd/sawmill/sawmill.go b/cmd/sawmill/sawmill.go
index 11a8742..b729178 100644
--- a/cmd/sawmill/sawmill.go
+++ b/cmd/sawmill/sawmill.go
@@ -143,6 +143,11 @@ func processInput(in io.Reader, out io.Writer, pipe *pipeline.Pipeline) error {
 			continue
 		}
 
+		// The event was dropped.
+		if evt == nil {
+			continue
+		}
+
 		if err := enc.Encode(evt); err != nil {
 			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)
 			continue
diff --git a/pkg/pipeline/event.go b/pkg/pipeline/event.go
index 0a7c740..374006f 100644
--- a/pkg/pipeline/event.go
+++ b/pkg/pipeline/event.go
@@ -52,6 +52,11 @@ func (e *pipelineEvent) Cancel() {
 	e.cancelled = true
 }
 
-func (e pipelineEvent) Drop() {
+func (e *pipelineEvent) Drop() {
 	e.dropped = true
 }
+
+// done returns true if there must be no further processing of the event.
+func (e *pipelineEvent) done() bool {
+	return e.dropped || e.cancelled
+}
diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index 32b138a..ad08868 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -85,6 +85,9 @@ func (pipe *Pipeline) process(evt *pipelineEvent) error {
 			// Go to global on_failure handler.
 			break
 		}
+		if evt.done() {
+			return nil
+		}
 	}
 
 	if err != nil && len(pipe.onFailure) > 0 {
@@ -93,6 +96,9 @@ func (pipe *Pipeline) process(evt *pipelineEvent) error {
 				// Failure in global on_failure.
 				return err
 			}
+			if evt.done() {
+				return nil
+			}
 		}
 	}
 
diff --git a/pkg/pipeline/processor.go b/pkg/pipeline/processor.go
index 31c601f..f3b7d09 100644
--- a/pkg/pipeline/processor.go
+++ b/pkg/pipeline/processor.go
@@ -49,12 +49,13 @@ func (p *pipelineProcessor) Process(event *pipelineEvent) error {
 	// TODO: Check Condition before executing.
 	p.metricEventsInTotal.Inc()
 
-	if err := p.proc.Process(event); err != nil {
-		if event.dropped {
-			p.metricDiscardedEventsTotal.Inc()
-			return nil
-		}
+	err := p.proc.Process(event)
+	if event.dropped {
+		p.metricDiscardedEventsTotal.Inc()
+		return nil
+	}
 
+	if err != nil && !event.cancelled {
 		// Ignore Missing
 		if p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {
 			p.metricEventsOutTotal.Inc()
@@ -64,12 +65,18 @@ func (p *pipelineProcessor) Process(event *pipelineEvent) error {
 		// On Failure
 		if len(p.OnFailure) > 0 {
 			for _, proc := range p.OnFailure {
-				if err = proc.Process(event); err != nil {
+				if err = proc.Process(event); err != nil || event.done() {
 					break
 				}
 			}
 		}
 
+		// A handler dropped or cancelled the event.
+		if event.done() {
+			p.metricEventsOutTotal.Inc()
+			return nil
+		}
+
 		// Ignore Failure
 		if p.IgnoreFailure && err != nil {
 			p.metricEventsOutTotal.Inc()
-- 
2.43.0


From 739721386ff8535d22ff49a32ac2d6ce263642de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 02/14] fix: count a failure recovered by on_failure as a sent
 event

---
 pkg/pipeline/processor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/pipeline/processor.go b/pkg/pipeline/processor.go
index f3b7d09..0b3b511 100644
--- a/pkg/pipeline/processor.go
+++ b/pkg/pipeline/processor.go
@@ -77,8 +77,8 @@ func (p *pipelineProcessor) Process(event *pipelineEvent) error {
 			return nil
 		}
 
-		// Ignore Failure
-		if p.IgnoreFailure && err != nil {
+		// Recovered or Ignore Failure
+		if err == nil || p.IgnoreFailure {
 			p.metricEventsOutTotal.Inc()
 			return nil
 		}
-- 
2.43.0


From f0741800cf18688461d7b57d17e8f834cff89bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 03/14] fix: export the metrics of pipeline-level on_failure
 processors

---
 pkg/pipeline/pipeline.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index ad08868..b2d6d1e 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -130,6 +130,9 @@ func (pipe *Pipeline) visitProcessors(visit func(processor *pipelineProcessor))
 	for _, proc := range pipe.processors {
 		visitProcessor(visit, proc)
 	}
+	for _, proc := range pipe.onFailure {
+		visitProcessor(visit, proc)
+	}
 }
 
 func visitProcessor(visit func(processor *pipelineProcessor), proc *pipelineProcessor) {
-- 
2.43.0


From 40f51bf853fb5c9e330acb0579fc304136ce62b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 04/14] fix: delete only the named field of an event

Deleting a nested field removed the whole top-level object.
---
 pkg/event/event.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index ffebbee..444b6f0 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -131,7 +131,11 @@ func (e *Event) delete(path []string) (deleted *Value) {
 
 	v := e.get(path)
 	if v != nil {
-		delete(e.fields, path[0])
+		m := e.fields
+		for _, key := range path[:len(path)-1] {
+			m = m[key].Object
+		}
+		delete(m, path[len(path)-1])
 	}
 
 	return v
-- 
2.43.0


From af0ed56d85d47fc049bdd409140feba9f5884fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 05/14] fix: let set copy its value into the event

Events shared the configured value, and fields their source, so changing
one of them changed the others.
---
 pkg/event/value.go           | 22 ++++++++++++++++++++++
 pkg/processor/set/process.go |  3 ++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/pkg/event/value.go b/pkg/event/value.go
index fd695a8..204081c 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -156,6 +156,28 @@ func (v *Value) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// Clone returns a deep copy of the value.
+func (v *Value) Clone() *Value {
+	if v == nil {
+		return nil
+	}
+
+	c := *v
+	if v.Array != nil {
+		c.Array = make([]*Value, len(v.Array))
+		for i, x := range v.Array {
+			c.Array[i] = x.Clone()
+		}
+	}
+	if v.Object != nil {
+		c.Object = make(map[string]*Value, len(v.Object))
+		for k, x := range v.Object {
+			c.Object[k] = x.Clone()
+		}
+	}
+	return &c
+}
+
 func Bool(v bool) *Value {
 	return &Value{Type: BoolType, Bool: v}
 }
diff --git a/pkg/processor/set/process.go b/pkg/processor/set/process.go
index 8275dc9..d760c84 100644
--- a/pkg/processor/set/process.go
+++ b/pkg/processor/set/process.go
@@ -33,6 +33,7 @@ func (p *Set) Process(evt processor.Event) error {
 		}
 	}
 
-	_, err := evt.Put(p.config.TargetField, v)
+	// The event must not share the value with the config or the source field.
+	_, err := evt.Put(p.config.TargetField, v.Clone())
 	return err
 }
-- 
2.43.0


From e3c0432620096377766e2e48e7f65d803b67fc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 06/14] fix: let append store the array it makes of a string

It also reports a field that cannot be put.
---
 pkg/processor/append/process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/processor/append/process.go b/pkg/processor/append/process.go
index 6186b54..833f202 100644
--- a/pkg/processor/append/process.go
+++ b/pkg/processor/append/process.go
@@ -28,7 +28,6 @@ func (p *Append) Process(evt processor.Event) error {
 	v := evt.Get(p.config.Field)
 	if v == nil {
 		v = event.Array()
-		evt.Put(p.config.Field, v)
 	} else if v.Type == event.StringType {
 		v = event.Array(v)
 	} else if v.Type != event.ArrayType {
@@ -36,5 +35,6 @@ func (p *Append) Process(evt processor.Event) error {
 	}
 
 	v.Array = append(v.Array, event.String(p.config.Value))
-	return nil
+	_, err := evt.Put(p.config.Field, v)
+	return err
 }
-- 
2.43.0


From 35b4f2fb09dca14fbecd43701f2a0b53f36b161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 07/14] fix: handle null and empty values in events decoded
 from JSON

JSON null became a nil *Value, on which the next access panicked. Putting
a field into an object without a map panicked, too.
---
 pkg/event/event.go | 12 ++++++++++--
 pkg/event/value.go | 10 ++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index 444b6f0..8c02fd0 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -78,9 +78,12 @@ func (e *Event) put(path []string, val *Value, overwrite bool) (old *Value, err
 	for _, key := range path[:len(path)-1] {
 		inner, found := m[key]
 		if found {
-			if inner.Type != ObjectType {
+			if inner == nil || inner.Type != ObjectType {
 				return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
 			}
+			if inner.Object == nil {
+				inner.Object = map[string]*Value{}
+			}
 			m = inner.Object
 			continue
 		}
@@ -110,7 +113,7 @@ func (e *Event) get(path []string) *Value {
 	m := e.fields
 	for _, key := range path[:len(path)-1] {
 		inner, found := m[key]
-		if !found || len(inner.Object) == 0 {
+		if !found || inner == nil || len(inner.Object) == 0 {
 			return nil
 		}
 		m = inner.Object
@@ -150,6 +153,11 @@ func (e *Event) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &fields); err != nil {
 		return err
 	}
+	for k, v := range fields {
+		if v == nil {
+			fields[k] = &Value{Type: NullType}
+		}
+	}
 	e.fields = fields
 	return nil
 }
diff --git a/pkg/event/value.go b/pkg/event/value.go
index 204081c..eb54820 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -121,11 +121,21 @@ func (v *Value) UnmarshalJSON(data []byte) error {
 		if err = json.Unmarshal(data, &v.Array); err != nil {
 			return err
 		}
+		for i, x := range v.Array {
+			if x == nil {
+				v.Array[i] = &Value{Type: NullType}
+			}
+		}
 		v.Type = ArrayType
 	case json.Delim('{'):
 		if err = json.Unmarshal(data, &v.Object); err != nil {
 			return err
 		}
+		for k, x := range v.Object {
+			if x == nil {
+				v.Object[k] = &Value{Type: NullType}
+			}
+		}
 		v.Type = ObjectType
 	default:
 		var value interface{}
-- 
2.43.0


From 797fc2b8a91fe3e1e736a9ab538c01eca1350be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 08/14] fix: decode and encode protobuf events without loss or
 panic

Nested and top-level keys are taken literally, a value whose kind is unset
and a nil value are null, and an event without fields stays an event.
---
 pkg/event/event.go                     |  7 ++++++
 pkg/serialization/protobuf/protobuf.go | 33 ++++++++++++++------------
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index 8c02fd0..4d0e141 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -39,6 +39,13 @@ func New() *Event {
 	return &Event{}
 }
 
+// NewFromObject returns a new Event that has the given fields. The names are
+// used literally (they are not split at dots). The Event takes ownership of
+// the map.
+func NewFromObject(fields map[string]*Value) *Event {
+	return &Event{fields: fields}
+}
+
 func (e *Event) init() {
 	e.fields = map[string]*Value{}
 }
diff --git a/pkg/serialization/protobuf/protobuf.go b/pkg/serialization/protobuf/protobuf.go
index e41c310..ae98bf8 100644
--- a/pkg/serialization/protobuf/protobuf.go
+++ b/pkg/serialization/protobuf/protobuf.go
@@ -21,7 +21,6 @@ import (
 	"fmt"
 
 	"github.com/andrewkroh/go-sawmill/pkg/event"
-	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
 )
 
 // FromEvent returns a protocol buffer message containing the log
@@ -38,7 +37,11 @@ func FromEvent(evt *event.Event) *MessageWrapper {
 
 func fromEventValue(v *event.Value) *Value {
 	if v == nil {
-		return nil
+		return &Value{
+			Kind: &Value_Null{
+				Null: ValueNull_NULL_VALUE,
+			},
+		}
 	}
 
 	switch v.Type {
@@ -128,24 +131,28 @@ func fromEventValueObject(v *event.Value) *ValueObject {
 
 // ToLogEvent returns a log event from a protocol buffer message.
 func ToLogEvent(l *Log) *event.Event {
-	if l == nil || l.Object == nil {
+	if l == nil {
 		return nil
 	}
 
-	evt := event.New()
-	for k, v := range l.Object.Fields {
-		evt.Put(eventutil.EscapeKey(k), toEventValue(v))
+	return event.NewFromObject(toEventFields(l.Object))
+}
+
+func toEventFields(o *ValueObject) map[string]*event.Value {
+	fields := make(map[string]*event.Value, len(o.GetFields()))
+	for k, v := range o.GetFields() {
+		fields[k] = toEventValue(v)
 	}
-	return evt
+	return fields
 }
 
 func toEventValue(v *Value) *event.Value {
 	switch t := v.GetKind().(type) {
-	case *Value_Null:
+	case nil, *Value_Null:
 		return event.NullValue
 	case *Value_Array:
-		items := make([]*event.Value, 0, len(t.Array.Items))
-		for _, x := range t.Array.Items {
+		items := make([]*event.Value, 0, len(t.Array.GetItems()))
+		for _, x := range t.Array.GetItems() {
 			items = append(items, toEventValue(x))
 		}
 		return event.Array(items...)
@@ -156,11 +163,7 @@ func toEventValue(v *Value) *event.Value {
 	case *Value_Integer:
 		return event.Integer(t.Integer)
 	case *Value_Object:
-		fields := make(map[string]*event.Value, len(t.Object.Fields))
-		for k, v := range t.Object.Fields {
-			fields[eventutil.EscapeKey(k)] = toEventValue(v)
-		}
-		return event.Object(fields)
+		return event.Object(toEventFields(t.Object))
 	case *Value_String_:
 		return event.String(string(t.String_))
 	case *Value_Timestamp:
-- 
2.43.0


From 1a961c9fd4d28185e044e53bd064374a76f2fce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 09/14] fix: encode empty arrays and objects to JSON as such

An array without a backing slice, as made by event.Array(), and an object
without a map became null.
---
 pkg/event/value.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/event/value.go b/pkg/event/value.go
index eb54820..7ed8061 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -74,6 +74,10 @@ type Value struct {
 func (v *Value) value() interface{} {
 	switch v.Type {
 	case ArrayType:
+		if v.Array == nil {
+			// A nil slice would become null in JSON.
+			return []*Value{}
+		}
 		return v.Array
 	case BoolType:
 		return v.Bool
@@ -82,6 +86,10 @@ func (v *Value) value() interface{} {
 	case IntegerType:
 		return v.Integer
 	case ObjectType:
+		if v.Object == nil {
+			// A nil map would become null in JSON.
+			return map[string]*Value{}
+		}
 		return v.Object
 	case StringType:
 		return v.String
-- 
2.43.0


From 190f6266010e002e02415e489981ce79da35e5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 10/14] fix: report a missing pipeline config instead of
 panicking

---
 pkg/pipeline/pipeline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index b2d6d1e..48efb24 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -32,7 +32,7 @@ type Pipeline struct {
 }
 
 func New(config *Config) (*Pipeline, error) {
-	if config.ID == "" {
+	if config == nil || config.ID == "" {
 		return nil, errors.New("pipeline must have a non-empty id")
 	}
 
-- 
2.43.0


From 5b05bb6e832320cb460ed1e510e5e498f52ba33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 11/14] fix: document every processor of a definitions entry

An entry that defines several processors was reduced to a random one.
---
 docs/generate/generate.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/docs/generate/generate.go b/docs/generate/generate.go
index d2111a6..322ea6b 100644
--- a/docs/generate/generate.go
+++ b/docs/generate/generate.go
@@ -79,7 +79,6 @@ func main() {
 				Name:      name,
 				Processor: proc,
 			})
-			break
 		}
 	}
 	sort.Slice(templateData.Processors, func(i, j int) bool {
-- 
2.43.0


From 355254876cff212d8c5a5ee3851dee2546fd017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 12/14] fix: let generators replace their output in one step
 and report I/O errors

An interrupted or failed write left a torn file; a torn processor file made the
next run add a second Process method, as did an unreadable one. Template errors
of the documentation generator were ignored.
---
 docs/generate/generate.go          |  5 ++---
 internal/proctemplate/write.go     | 35 ++++++++++++++++++++++++++++++
 pkg/processor/generate/generate.go |  8 +++++--
 3 files changed, 43 insertions(+), 5 deletions(-)
 create mode 100644 internal/proctemplate/write.go

diff --git a/docs/generate/generate.go b/docs/generate/generate.go
index 322ea6b..d26f0d9 100644
--- a/docs/generate/generate.go
+++ b/docs/generate/generate.go
@@ -22,7 +22,6 @@ import (
 	"embed"
 	_ "embed"
 	"flag"
-	"io/ioutil"
 	"log"
 	"sort"
 	"text/template"
@@ -87,11 +86,11 @@ func main() {
 
 	// Render template.
 	buf := new(bytes.Buffer)
-	if templates.ExecuteTemplate(buf, "README.md.gotmpl", templateData); err != nil {
+	if err = templates.ExecuteTemplate(buf, "README.md.gotmpl", templateData); err != nil {
 		log.Fatal(err)
 	}
 
-	if err = ioutil.WriteFile(outputFile, buf.Bytes(), 0o644); err != nil {
+	if err = proctemplate.WriteFile(outputFile, buf.Bytes()); err != nil {
 		log.Fatal(err)
 	}
 }
diff --git a/internal/proctemplate/write.go b/internal/proctemplate/write.go
new file mode 100644
index 0000000..1e35ef7
--- /dev/null
+++ b/internal/proctemplate/write.go
@@ -0,0 +1,35 @@
+// Licensed to Elasticsearch B.V. under one or more contributor
+// license agreements. See the NOTICE file distributed with
+// this work for additional information regarding copyright
+// ownership. Elasticsearch B.V. licenses this file to you under
+// the Apache License, Version 2.0 (the "License"); you may
+// not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing,
+// software distributed under the License is distributed on an
+// "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF ANY
+// KIND, either express or implied.  See the License for the
+// specific language governing permissions and limitations
+// under the License.
+
+package proctemplate
+
+import "os"
+
+// WriteFile replaces the content of the named file in one step. When it fails,
+// or the process is killed, then the previous content is kept.
+func WriteFile(path string, data []byte) error {
+	tmp := path + ".tmp"
+	if err := os.WriteFile(tmp, data, 0o644); err != nil {
+		os.Remove(tmp)
+		return err
+	}
+	if err := os.Rename(tmp, path); err != nil {
+		os.Remove(tmp)
+		return err
+	}
+	return nil
+}
diff --git a/pkg/processor/generate/generate.go b/pkg/processor/generate/generate.go
index 834da8c..c9f5f4f 100644
--- a/pkg/processor/generate/generate.go
+++ b/pkg/processor/generate/generate.go
@@ -20,12 +20,12 @@ package main
 import (
 	"bytes"
 	_ "embed"
+	"errors"
 	"flag"
 	"go/ast"
 	"go/format"
 	"go/parser"
 	"go/token"
-	"io/ioutil"
 	"log"
 	"os"
 	"path/filepath"
@@ -94,6 +94,10 @@ func main() {
 			// Check if the existing file has been modified and keep that
 			// modification.
 			hasProcess, err := hasProcessFunc(outputGoFile)
+			var pathErr *os.PathError
+			if errors.As(err, &pathErr) && !errors.Is(err, os.ErrNotExist) {
+				log.Fatal(err)
+			}
 			if err == nil && !hasProcess {
 				templateData.IncludeProcessFunc = false
 			}
@@ -114,7 +118,7 @@ func main() {
 				log.Fatal(err)
 			}
 
-			if err = ioutil.WriteFile(outputGoFile, srcBytes, 0o644); err != nil {
+			if err = proctemplate.WriteFile(outputGoFile, srcBytes); err != nil {
 				log.Fatal(err)
 			}
 		}
-- 
2.43.0


From 192c617a360beacce49e26ec28423c0e01da4a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 13/14] fix: keep the names of nested fields when converting
 maps to values

---
 pkg/eventutil/reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/eventutil/reflect.go b/pkg/eventutil/reflect.go
index b0b6d5b..274f5d2 100644
--- a/pkg/eventutil/reflect.go
+++ b/pkg/eventutil/reflect.go
@@ -87,7 +87,7 @@ func interfaceToValue(ifc interface{}) (*event.Value, error) {
 				return nil, fmt.Errorf("failed on key %q: %w", k, err)
 			}
 
-			obj[EscapeKey(k)] = v
+			obj[k] = v
 		}
 		return event.Object(obj), nil
 	case nil:
-- 
2.43.0


From 0e3d4d40d50e475ed74519375d22639dfd394bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:22 +0000
Subject: [PATCH 14/14] fix: keep long processor descriptions intact in
 generated comments

bufio.Scanner reuses the buffer behind Bytes, so the lines of a
description of more than 4 KiB were overwritten by later ones.
---
 internal/proctemplate/funcs.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/proctemplate/funcs.go b/internal/proctemplate/funcs.go
index 2581b13..9faa566 100644
--- a/internal/proctemplate/funcs.go
+++ b/internal/proctemplate/funcs.go
@@ -62,15 +62,16 @@ func descriptionToComment(indent, desc string) (string, error) {
 }
 
 func trimTrailingWhitespace(text string) (string, error) {
-	var lines [][]byte
+	var lines []string
 	s := bufio.NewScanner(bytes.NewBufferString(text))
 	for s.Scan() {
-		lines = append(lines, bytes.TrimRightFunc(s.Bytes(), unicode.IsSpace))
+		// Text makes a copy, the buffer behind Bytes is reused by Scan.
+		lines = append(lines, strings.TrimRightFunc(s.Text(), unicode.IsSpace))
 	}
 	if err := s.Err(); err != nil {
 		return "", err
 	}
-	return string(bytes.Join(lines, []byte("\n"))), nil
+	return strings.Join(lines, "\n"), nil
 }
 
 // goTypeName removes special characters ('_', '.', '@') and returns a
-- 
2.43.0

