From 3fe627e27ab20a8e6f73096266d5f58730f4fd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 1/8] fix: make --trace take effect

The flag was declared but never bound to the variable that selects the
trace parser mode, so kuneiform -t printed nothing.
---
 cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/root.go b/cmd/root.go
index adc7c9d..20454b6 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -96,7 +96,7 @@ func Execute() {
 }
 
 func init() {
-	rootCmd.Flags().BoolP("trace", "t", false, "toggle trace output")
+	rootCmd.Flags().BoolVarP(&trace, "trace", "t", false, "toggle trace output")
 	rootCmd.Flags().BoolVarP(&showVersion, "version", "v", false, "Show version and exit")
 	rootCmd.Flags().StringVarP(&outputDir, "output", "o", outputDir, "Output directory")
 }
-- 
2.43.0


From 77223d4f82cae9eaefa1083b625a12c12053ac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 2/8] fix: index and foreign key columns must be columns

Columns and indexes of a table share one declaration map, so an index or a
foreign key could name an index (even itself) where a column is required and
the invalid schema was accepted.
---
 schema/validator.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/schema/validator.go b/schema/validator.go
index 5df56c8..de10d54 100644
--- a/schema/validator.go
+++ b/schema/validator.go
@@ -35,6 +35,12 @@ type Validator interface {
 
 type declCtx map[string]string
 
+// kinds of declarations inside a table
+const (
+	declColumn = "column"
+	declIndex  = "index"
+)
+
 type ContextValidator struct {
 	tableCtx    map[string]declCtx
 	actionCtx   map[string]declCtx
@@ -88,7 +94,7 @@ func (c *ContextValidator) VisitSchema(s *Schema) error {
 		for _, fk := range t.ForeignKeys {
 			// check foreign keys column in current table
 			for _, col := range fk.ChildKeys {
-				if _, ok := c.tableCtx[t.Name][col]; !ok {
+				if c.tableCtx[t.Name][col] != declColumn {
 					return fmt.Errorf("%w: fk(%s/%s)", ErrColumnNotFound, t.Name, col)
 				}
 			}
@@ -121,7 +127,7 @@ func (c *ContextValidator) VisitTable(t *Table) error {
 			if _, ok := c.tableCtx[c.currentDecl][col.Name]; ok {
 				return fmt.Errorf("%w: %s", ErrDuplicateColumn, col.Name)
 			}
-			c.tableCtx[c.currentDecl][col.Name] = "column"
+			c.tableCtx[c.currentDecl][col.Name] = declColumn
 			if err := col.Accept(c); err != nil {
 				return err
 			}
@@ -133,7 +139,7 @@ func (c *ContextValidator) VisitTable(t *Table) error {
 			if _, ok := c.tableCtx[c.currentDecl][idx.Name]; ok {
 				return fmt.Errorf("%w: %s", ErrDuplicateIndex, idx.Name)
 			}
-			c.tableCtx[c.currentDecl][idx.Name] = "index"
+			c.tableCtx[c.currentDecl][idx.Name] = declIndex
 			if err := idx.Accept(c); err != nil {
 				return err
 			}
@@ -169,7 +175,7 @@ func (c *ContextValidator) VisitAttribute(a *Attribute) error {
 
 func (c *ContextValidator) VisitIndex(i *Index) error {
 	for _, col := range i.Columns {
-		if _, ok := c.tableCtx[c.currentDecl][col]; !ok {
+		if c.tableCtx[c.currentDecl][col] != declColumn {
 			return fmt.Errorf("%w: index(%s/%s)", ErrColumnNotFound, c.currentDecl, col)
 		}
 	}
@@ -182,7 +188,7 @@ func (c *ContextValidator) VisitForeignKey(fk *ForeignKey) error {
 	}
 
 	for _, col := range fk.ParentKeys {
-		if _, ok := c.tableCtx[fk.ParentTable][col]; !ok {
+		if c.tableCtx[fk.ParentTable][col] != declColumn {
 			return fmt.Errorf("%w: ref(%s->%s)", ErrColumnNotFound, fk.ParentTable, col)
 		}
 	}
-- 
2.43.0


From 9045016fcdc8ec0d6a2cb650d413fe576839e8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 3/8] fix: report a failed write of the output

The deferred close overwrote the error of a failed write, so a short output
(full disk, I/O error) was reported as a success; a failed close ended in
log.Fatal with the wrong exit code.
---
 cmd/root.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 20454b6..69e6656 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -1,7 +1,6 @@
 package cmd
 
 import (
-	"log"
 	"os"
 	"path/filepath"
 
@@ -107,16 +106,10 @@ func writeToFile(data []byte, filePath string) (err error) {
 		return err
 	}
 
-	defer func() {
-		err = f.Close()
-		if err != nil {
-			log.Fatal(err)
-		}
-	}()
-
-	if _, err := f.Write(data); err != nil {
+	if _, err = f.Write(data); err != nil {
+		f.Close()
 		return err
 	}
 
-	return err
+	return f.Close()
 }
-- 
2.43.0


From 47468632ea9d75703352915407071265049a8465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 4/8] fix: replace the output file in one step

The output was written in place and without truncating it: a shorter schema
left the tail of the previous one behind, and an interrupted or concurrent
run left a mixture that is not JSON.
---
 cmd/root.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 69e6656..f1d3f15 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -1,6 +1,8 @@
 package cmd
 
 import (
+	"fmt"
+	"math/rand"
 	"os"
 	"path/filepath"
 
@@ -100,16 +102,35 @@ func init() {
 	rootCmd.Flags().StringVarP(&outputDir, "output", "o", outputDir, "Output directory")
 }
 
+// writeToFile replaces filePath with data in one step: data goes to a temporary
+// file in the same directory which is then renamed, so that filePath holds either
+// what it held before or all of data, even if we are interrupted half way, and
+// nothing of a longer previous content remains.
 func writeToFile(data []byte, filePath string) (err error) {
-	f, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY, 0644)
+	if target, err := filepath.EvalSymlinks(filePath); err == nil {
+		filePath = target // replace what a link points to, not the link
+	}
+
+	tmpPath := filepath.Join(filepath.Dir(filePath), fmt.Sprintf(".kuneiform-%016x.tmp", rand.Uint64()))
+	f, err := os.OpenFile(tmpPath, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0644)
 	if err != nil {
 		return err
 	}
 
+	defer func() {
+		if err != nil {
+			os.Remove(tmpPath)
+		}
+	}()
+
 	if _, err = f.Write(data); err != nil {
 		f.Close()
 		return err
 	}
 
-	return f.Close()
+	if err = f.Close(); err != nil {
+		return err
+	}
+
+	return os.Rename(tmpPath, filePath)
 }
-- 
2.43.0


From 0d0020248fd3a757fb37b64e8424a38e090ce218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 5/8] fix: never overwrite the source file with the output

A source that already has the name of its output (x.json compiled with -o of
its own directory, or a link) was silently replaced by the schema.
---
 cmd/root.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/cmd/root.go b/cmd/root.go
index f1d3f15..647888a 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -77,6 +77,11 @@ var rootCmd = &cobra.Command{
 		}
 
 		outputFilePath := filepath.Join(outputDir, fileName+".json")
+		if isSameFile(fileToParse, outputFilePath) {
+			cmd.Println("output would overwrite the source file", fileToParse)
+			os.Exit(CodeErrWriteFile)
+		}
+
 		err = writeToFile(dbJson, outputFilePath)
 		if err != nil {
 			cmd.Println(err)
@@ -102,6 +107,18 @@ func init() {
 	rootCmd.Flags().StringVarP(&outputDir, "output", "o", outputDir, "Output directory")
 }
 
+func isSameFile(a, b string) bool {
+	ai, err := os.Stat(a)
+	if err != nil {
+		return false
+	}
+	bi, err := os.Stat(b)
+	if err != nil {
+		return false
+	}
+	return os.SameFile(ai, bi)
+}
+
 // writeToFile replaces filePath with data in one step: data goes to a temporary
 // file in the same directory which is then renamed, so that filePath holds either
 // what it held before or all of data, even if we are interrupted half way, and
-- 
2.43.0


From f826071c2197acf1e1a5b2bae7e56aa44288c8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 6/8] fix: do not overwrite the source when comparing it to the
 output fails

A failing stat was taken to mean that the two are different files.
---
 cmd/root.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 647888a..6ac1f14 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -1,7 +1,9 @@
 package cmd
 
 import (
+	"errors"
 	"fmt"
+	"io/fs"
 	"math/rand"
 	"os"
 	"path/filepath"
@@ -77,7 +79,12 @@ var rootCmd = &cobra.Command{
 		}
 
 		outputFilePath := filepath.Join(outputDir, fileName+".json")
-		if isSameFile(fileToParse, outputFilePath) {
+		same, err := isSameFile(fileToParse, outputFilePath)
+		if err != nil {
+			cmd.Println(err)
+			os.Exit(CodeErrWriteFile)
+		}
+		if same {
 			cmd.Println("output would overwrite the source file", fileToParse)
 			os.Exit(CodeErrWriteFile)
 		}
@@ -107,16 +114,20 @@ func init() {
 	rootCmd.Flags().StringVarP(&outputDir, "output", "o", outputDir, "Output directory")
 }
 
-func isSameFile(a, b string) bool {
-	ai, err := os.Stat(a)
-	if err != nil {
-		return false
-	}
+// isSameFile tells whether a and b name one existing file.
+func isSameFile(a, b string) (bool, error) {
 	bi, err := os.Stat(b)
+	if errors.Is(err, fs.ErrNotExist) {
+		return false, nil
+	} else if err != nil {
+		return false, err
+	}
+
+	ai, err := os.Stat(a)
 	if err != nil {
-		return false
+		return false, err
 	}
-	return os.SameFile(ai, bi)
+	return os.SameFile(ai, bi), nil
 }
 
 // writeToFile replaces filePath with data in one step: data goes to a temporary
-- 
2.43.0


From ee005f3ddc0b8d4b387f6561690d78ac7c8c794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 7/8] fix: check variables inside the expressions passed to
 calls

An unknown variable was reported only when it was a whole argument: a($nosuch)
was refused, a(1 + $nosuch) and a(abs($nosuch)) were accepted.
---
 schema/validator.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/schema/validator.go b/schema/validator.go
index de10d54..60041c4 100644
--- a/schema/validator.go
+++ b/schema/validator.go
@@ -235,11 +235,29 @@ func checkArgRef(arg tree.Expression, ctx declCtx, localCtx map[string]bool) err
 				return fmt.Errorf("%w: %s", ErrVariableNotFound, arg)
 			}
 		}
+	case *tree.ExpressionUnary:
+		return checkArgRefs(ctx, localCtx, t.Operand)
+	case *tree.ExpressionArithmetic:
+		return checkArgRefs(ctx, localCtx, t.Left, t.Right)
+	case *tree.ExpressionBinaryComparison:
+		return checkArgRefs(ctx, localCtx, t.Left, t.Right)
+	case *tree.ExpressionFunction:
+		return checkArgRefs(ctx, localCtx, t.Inputs...)
 	}
 
 	return nil
 }
 
+// checkArgRefs checks every reference inside the given expressions
+func checkArgRefs(ctx declCtx, localCtx map[string]bool, args ...tree.Expression) error {
+	for _, arg := range args {
+		if err := checkArgRef(arg, ctx, localCtx); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (c *ContextValidator) visitActions(actions []Action) error {
 	for _, a := range actions {
 		// track local defined variables
-- 
2.43.0


From 81f5fcc2274c071928812b96ddc980fe17ff8f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:12 +0000
Subject: [PATCH 8/8] fix: synchronise the output before it is renamed into
 place

Without it a failure of the machine can leave the output path with an empty
or partial file although the old output was complete.
---
 cmd/root.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/root.go b/cmd/root.go
index 6ac1f14..38eab11 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -156,6 +156,13 @@ func writeToFile(data []byte, filePath string) (err error) {
 		return err
 	}
 
+	// the data has to be on the disk before the name is, or a power failure could
+	// leave the name without the data
+	if err = f.Sync(); err != nil {
+		f.Close()
+		return err
+	}
+
 	if err = f.Close(); err != nil {
 		return err
 	}
-- 
2.43.0

