From 288d20f92437761f5807dcc4b391950b4b472b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:13 +0000
Subject: [PATCH 01/45] fix: do not select files of sibling directories that
 share a name prefix

A directory argument a/b also selected the files of a/bc, as paths were
compared as strings.
---
 internal/exec/runner.go     |  6 +++---
 internal/file/file.go       | 13 +++++++++++++
 internal/lint/lint.go       |  2 +-
 internal/protoc/compiler.go |  4 ++--
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 9124bfd..a5ff568 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -226,7 +226,7 @@ func (r *runner) Files(args []string) error {
 	var allFiles []string
 	for dirPath, files := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !file.IsWithin(meta.ProtoSet.DirPath, dirPath) {
 			continue
 		}
 		for _, file := range files {
@@ -491,7 +491,7 @@ func (r *runner) format(overwrite, diffMode, lintMode bool, fix int, fileHeader
 	success := true
 	for dirPath, protoFiles := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !file.IsWithin(meta.ProtoSet.DirPath, dirPath) {
 			continue
 		}
 		for _, protoFile := range protoFiles {
@@ -1199,7 +1199,7 @@ func (r *runner) printLinters(config settings.LintConfig, linters []lint.Linter)
 func (r *runner) printAffectedFiles(meta *meta) {
 	for dirPath, files := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !file.IsWithin(meta.ProtoSet.DirPath, dirPath) {
 			continue
 		}
 		for _, file := range files {
diff --git a/internal/file/file.go b/internal/file/file.go
index 5ba949d..5f2c46b 100644
--- a/internal/file/file.go
+++ b/internal/file/file.go
@@ -23,6 +23,7 @@ package file
 import (
 	"fmt"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/uber/prototool/internal/settings"
@@ -141,6 +142,18 @@ func AbsClean(path string) (string, error) {
 	return filepath.Clean(path), nil
 }
 
+// IsWithin returns true if the given path is the given directory path or is
+// below it. Both paths must be absolute and cleaned.
+//
+// A path that merely has the directory path as a string prefix, such as
+// /a/bc for the directory /a/b, is not within the directory.
+func IsWithin(absDirPath string, absPath string) bool {
+	if absPath == absDirPath || absDirPath == rootDirPath {
+		return true
+	}
+	return strings.HasPrefix(absPath, absDirPath+string(filepath.Separator))
+}
+
 // CheckAbs is a convenience functions for determining
 // whether a path is an absolute path.
 func CheckAbs(path string) error {
diff --git a/internal/lint/lint.go b/internal/lint/lint.go
index 7d9634b..ac93d4e 100644
--- a/internal/lint/lint.go
+++ b/internal/lint/lint.go
@@ -429,7 +429,7 @@ func GetDirPathToDescriptors(protoSet *file.ProtoSet, absolutePaths bool) (map[s
 	dirPathToDescriptors := make(map[string][]*FileDescriptor, len(protoSet.DirPathToFiles))
 	for dirPath, protoFiles := range protoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+		if !file.IsWithin(protoSet.DirPath, dirPath) {
 			continue
 		}
 		descriptors := make([]*FileDescriptor, len(protoFiles))
diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 9a379bf..25b59a1 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -215,7 +215,7 @@ func (c *compiler) makeGenDirs(protoSet *file.ProtoSet) error {
 		} else {
 			for dirPath := range protoSet.DirPathToFiles {
 				// skip those files not under the directory
-				if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+				if !file.IsWithin(protoSet.DirPath, dirPath) {
 					continue
 				}
 				relOutputFilePath, err := getRelOutputFilePath(protoSet, dirPath, genPlugin.FileSuffix)
@@ -315,7 +315,7 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 	}
 	for dirPath, protoFiles := range protoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+		if !file.IsWithin(protoSet.DirPath, dirPath) {
 			continue
 		}
 		// you want your proto files to be in at least one of the -I directories
-- 
2.43.0


From 825e3e35fd95bc6cfd9bc64cebe2b3e5398db2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:48 +0000
Subject: [PATCH 02/45] fix: compare paths by path element in excludes,
 includes, create and break check

A path that shares its string prefix with a directory was taken to be below
it, and a directory whose name starts with two dots was taken to be outside.
---
 internal/create/handler.go           | 15 +++++++++------
 internal/exec/runner.go              |  2 +-
 internal/file/proto_set_provider.go  |  2 +-
 internal/protoc/compiler.go          |  6 ++----
 internal/settings/config_provider.go |  9 ++++++++-
 5 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/internal/create/handler.go b/internal/create/handler.go
index 6d6115b..0bf182b 100644
--- a/internal/create/handler.go
+++ b/internal/create/handler.go
@@ -254,9 +254,7 @@ func (h *handler) getPkg(filePath string, defaultPackage string) (string, error)
 	// note that createDirPath will always be absolute per the spec in
 	// the settings package
 	for createDirPath, basePkg := range config.Create.DirPathToBasePackage {
-		// TODO: cannot do rel right away because it will do ../.. if necessary
-		// strings.HasPrefix is not OS independent however
-		if !strings.HasPrefix(absDirPath, createDirPath) {
+		if !isWithin(createDirPath, absDirPath) {
 			continue
 		}
 		if len(createDirPath) > len(longestCreateDirPath) {
@@ -274,9 +272,7 @@ func (h *handler) getPkg(filePath string, defaultPackage string) (string, error)
 
 	// no package mapping found, do default logic
 
-	// TODO: cannot do rel right away because it will do ../.. if necessary
-	// strings.HasPrefix is not OS independent however
-	if !strings.HasPrefix(absDirPath, config.DirPath) {
+	if !isWithin(config.DirPath, absDirPath) {
 		return defaultPackage, nil
 	}
 	rel, err := filepath.Rel(config.DirPath, absDirPath)
@@ -298,6 +294,13 @@ func (h *handler) getConfig(filePath string) (settings.Config, error) {
 	return h.configProvider.GetForDir(absDirPath)
 }
 
+// isWithin returns true if the given absolute path is below the given absolute
+// directory path, or is that path.
+func isWithin(dirPath string, path string) bool {
+	rel, err := filepath.Rel(dirPath, path)
+	return err == nil && rel != ".." && !strings.HasPrefix(rel, ".."+string(filepath.Separator))
+}
+
 func getPkgFromRel(rel string, basePkg string, defaultPackage string) string {
 	if rel == "." {
 		if basePkg == "" {
diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index a5ff568..dc824c4 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -797,7 +797,7 @@ func (r *runner) BreakCheck(args []string, gitBranch string, descriptorSetPath s
 		if err != nil {
 			return err
 		}
-		if !strings.HasPrefix(absDirPath, absWorkDirPath) {
+		if !file.IsWithin(absWorkDirPath, absDirPath) {
 			return fmt.Errorf("input directory must be within working directory: %s", relDirPath)
 		}
 
diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index bd33599..d71d6b8 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -321,7 +321,7 @@ func validateIsRel(base string, dir string) error {
 	if rel == "" {
 		return fmt.Errorf("could not make %s relative to %s, this is a system error", base, dir)
 	}
-	if strings.HasPrefix(rel, "..") {
+	if rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
 		return fmt.Errorf("could not make %s within %s, got %s, this is a system error", base, dir, rel)
 	}
 	return nil
diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 25b59a1..db81aff 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -588,8 +588,7 @@ func getIncludes(downloader Downloader, config settings.Config, dirPath string,
 	includedConfigDirPath := false
 	for _, includePath := range config.Compile.IncludePaths {
 		includes = append(includes, includePath)
-		// TODO: not exactly platform independent
-		if strings.HasPrefix(dirPath, includePath) {
+		if file.IsWithin(includePath, dirPath) {
 			fileInIncludePath = true
 		}
 		if includePath == configDirPath {
@@ -602,8 +601,7 @@ func getIncludes(downloader Downloader, config settings.Config, dirPath string,
 			return nil, err
 		}
 		includes = append(includes, wellKnownTypesIncludePath)
-		// TODO: not exactly platform independent
-		if strings.HasPrefix(dirPath, wellKnownTypesIncludePath) {
+		if file.IsWithin(filepath.Clean(wellKnownTypesIncludePath), dirPath) {
 			fileInIncludePath = true
 		}
 	}
diff --git a/internal/settings/config_provider.go b/internal/settings/config_provider.go
index 616e7a8..4d3dea3 100644
--- a/internal/settings/config_provider.go
+++ b/internal/settings/config_provider.go
@@ -416,7 +416,7 @@ func getExcludePrefixes(excludes []string, dirPath string) ([]string, error) {
 		if excludePrefix == dirPath {
 			return nil, fmt.Errorf("cannot exclude directory of config file: %s", dirPath)
 		}
-		if !strings.HasPrefix(excludePrefix, dirPath) {
+		if !isWithin(dirPath, excludePrefix) {
 			return nil, fmt.Errorf("cannot exclude directory outside of config file directory %s: %s", dirPath, excludePrefix)
 		}
 		excludePrefixes = append(excludePrefixes, excludePrefix)
@@ -424,6 +424,13 @@ func getExcludePrefixes(excludes []string, dirPath string) ([]string, error) {
 	return excludePrefixes, nil
 }
 
+// isWithin returns true if the given absolute path is below the given absolute
+// directory path, or is that path.
+func isWithin(dirPath string, path string) bool {
+	rel, err := filepath.Rel(dirPath, path)
+	return err == nil && rel != ".." && !strings.HasPrefix(rel, ".."+string(filepath.Separator))
+}
+
 // jsonUnmarshalStrict makes sure there are no unknown fields when unmarshalling.
 // This matches what yaml.UnmarshalStrict does basically.
 // json.Unmarshal allows unknown fields.
-- 
2.43.0


From b0fbfe0b1ef2ff3b50bcfa1284cd3035d2710d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:18 +0000
Subject: [PATCH 03/45] fix: create resolves --config-data against the working
 directory

As documented for the flag and as all other commands do; it was taken to be
in the directory of the created file.
---
 internal/create/handler.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/create/handler.go b/internal/create/handler.go
index 0bf182b..16590da 100644
--- a/internal/create/handler.go
+++ b/internal/create/handler.go
@@ -283,14 +283,19 @@ func (h *handler) getPkg(filePath string, defaultPackage string) (string, error)
 }
 
 func (h *handler) getConfig(filePath string) (settings.Config, error) {
+	if h.configData != "" {
+		// the configuration data acts as a configuration file in the working directory
+		absWorkDirPath, err := filepath.Abs(".")
+		if err != nil {
+			return settings.Config{}, err
+		}
+		return h.configProvider.GetForData(absWorkDirPath, h.configData)
+	}
 	absFilePath, err := filepath.Abs(filePath)
 	if err != nil {
 		return settings.Config{}, err
 	}
 	absDirPath := filepath.Dir(absFilePath)
-	if h.configData != "" {
-		return h.configProvider.GetForData(absDirPath, h.configData)
-	}
 	return h.configProvider.GetForDir(absDirPath)
 }
 
-- 
2.43.0


From 029f10d41222f6df97f16bdbc5dbd72ae1d95b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:01 +0000
Subject: [PATCH 04/45] fix: attribute protoc diagnostics whose message
 contains a colon

---
 internal/protoc/compiler.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index db81aff..c22a603 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -75,6 +75,8 @@ var (
 	optionValueRegexp                 = regexp.MustCompile("^(.*): Error while parsing option value for (.*)$")
 	programNotFoundRegexp             = regexp.MustCompile("protoc-gen-(.*): program not found or is not executable$")
 	firstEnumValueZeroRegexp          = regexp.MustCompile("^(.*): The first enum value must be zero in proto3.$")
+	// any other line with line and column information, the message of which contains a colon
+	lineColumnRegexp = regexp.MustCompile(`^(.*?):(\d+):(\d+): (.*)$`)
 )
 
 type compiler struct {
@@ -726,6 +728,22 @@ func (c *compiler) parseProtocLine(cmdMeta *cmdMeta, protocLine string) *text.Fa
 				Message:  fmt.Sprintf(`File recursively imports itself %s.`, matches[2]),
 			}
 		}
+		if matches := lineColumnRegexp.FindStringSubmatch(protocLine); len(matches) > 4 {
+			line, err := strconv.Atoi(matches[2])
+			if err != nil {
+				return c.handleUninterpretedProtocLine(protocLine)
+			}
+			column, err := strconv.Atoi(matches[3])
+			if err != nil {
+				return c.handleUninterpretedProtocLine(protocLine)
+			}
+			return &text.Failure{
+				Filename: bestFilePath(cmdMeta, matches[1]),
+				Line:     line,
+				Column:   column,
+				Message:  matches[4],
+			}
+		}
 		if matches := directoryDoesNotExistRegexp.FindStringSubmatch(protocLine); len(matches) > 1 {
 			return &text.Failure{
 				Message: fmt.Sprintf(`Directory "%s" does not exist.`, matches[1]),
-- 
2.43.0


From 223d6498e015a5662a092239d5aee05ca85e4afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:20 +0000
Subject: [PATCH 05/45] fix: display files in protoc diagnostics relative to
 the working directory

---
 internal/protoc/compiler.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index c22a603..a0345df 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -384,6 +384,7 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 				execCmd:    exec.Command(protocPath, iArgs...),
 				protoSet:   protoSet,
 				dirPath:    dirPath,
+				includes:   includes,
 				protoFiles: protoFiles,
 				// used for cleaning up the cmdMeta after everything is done
 				descriptorSetTempFilePath: descriptorSetTempFilePath,
@@ -402,6 +403,7 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 				execCmd:    exec.Command(protocPath, iArgs...),
 				protoSet:   protoSet,
 				dirPath:    dirPath,
+				includes:   includes,
 				protoFiles: protoFiles,
 			})
 		}
@@ -859,12 +861,20 @@ func (c *compiler) handleUninterpretedProtocLine(protocLine string) *text.Failur
 // that the file is on apparently
 // -I etc etc/testdata/foo.proto will result in testdata/foo.proto
 // this makes it consistent if possible
-// TODO: if the file name is not in the given compile command, ie
-// if it is imported from another directory, we do not handle this,
-// do we want to do a full search of all files in the ProtoSet?
 //
-// this does getDisplayFilePath but returns match if there is an error
+// this first looks for the file in the include paths in the same order as protoc,
+// which also handles files that are imported from another directory,
+// then does getDisplayFilePath, and returns match if there is an error
 func bestFilePath(cmdMeta *cmdMeta, match string) string {
+	for _, include := range cmdMeta.includes {
+		absPath := filepath.Join(include, match)
+		if fileInfo, err := os.Stat(absPath); err != nil || fileInfo.IsDir() {
+			continue
+		}
+		if displayFilePath, err := filepath.Rel(cmdMeta.protoSet.WorkDirPath, absPath); err == nil {
+			return displayFilePath
+		}
+	}
 	displayFilePath, err := getDisplayFilePath(cmdMeta, match)
 	if err != nil {
 		return match
@@ -942,6 +952,7 @@ type cmdMeta struct {
 	execCmd                   *exec.Cmd
 	protoSet                  *file.ProtoSet
 	dirPath                   string
+	includes                  []string
 	protoFiles                []*file.ProtoFile
 	descriptorSetTempFilePath string
 }
-- 
2.43.0


From 3ac615ee312035aa61adb0d308a4d0d56e817485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 06/45] fix: config init does not add a second configuration
 file to a directory

---
 internal/exec/runner.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index dc824c4..3a29536 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -178,8 +178,12 @@ func (r *runner) Init(args []string, uncomment bool, document bool) error {
 		}
 	}
 	filePath := filepath.Join(dirPath, settings.DefaultConfigFilename)
-	if _, err := os.Stat(filePath); err == nil {
-		return fmt.Errorf("%s already exists", filePath)
+	// a directory with more than one configuration file is an error, so there must be none
+	for _, configFilename := range settings.ConfigFilenames {
+		existingFilePath := filepath.Join(dirPath, configFilename)
+		if _, err := os.Stat(existingFilePath); err == nil {
+			return fmt.Errorf("%s already exists", existingFilePath)
+		}
 	}
 	data, err := cfginit.Generate(vars.DefaultProtocVersion, uncomment, document)
 	if err != nil {
-- 
2.43.0


From 77702c7d1df2d1b6982fb44f5cbf1abfc39bc700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 07/45] fix: reject data after the JSON value of a
 configuration

---
 internal/settings/config_provider.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/settings/config_provider.go b/internal/settings/config_provider.go
index 4d3dea3..29ae2f1 100644
--- a/internal/settings/config_provider.go
+++ b/internal/settings/config_provider.go
@@ -23,7 +23,9 @@ package settings
 import (
 	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"os"
 	"os/exec"
@@ -437,7 +439,14 @@ func isWithin(dirPath string, path string) bool {
 func jsonUnmarshalStrict(data []byte, v interface{}) error {
 	decoder := json.NewDecoder(bytes.NewReader(data))
 	decoder.DisallowUnknownFields()
-	return decoder.Decode(v)
+	if err := decoder.Decode(v); err != nil {
+		return err
+	}
+	// Decode stops after the first JSON value
+	if _, err := decoder.Token(); err != io.EOF {
+		return errors.New("unexpected data after JSON value")
+	}
+	return nil
 }
 
 func getFileHeaderLines(content string) []string {
-- 
2.43.0


From 5130dc93cf4b1a0dfd4ab398f16038c1504379a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:40 +0000
Subject: [PATCH 08/45] fix: format reports files in a fixed order

---
 internal/exec/runner.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 3a29536..2d5d61c 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -492,20 +492,24 @@ func (r *runner) Format(args []string, overwrite, diffMode, lintMode, fixFlag bo
 }
 
 func (r *runner) format(overwrite, diffMode, lintMode bool, fix int, fileHeader string, javaPackagePrefix string, meta *meta) error {
-	success := true
+	var allProtoFiles []*file.ProtoFile
 	for dirPath, protoFiles := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
 		if !file.IsWithin(meta.ProtoSet.DirPath, dirPath) {
 			continue
 		}
-		for _, protoFile := range protoFiles {
-			fileSuccess, err := r.formatFile(overwrite, diffMode, lintMode, fix, fileHeader, javaPackagePrefix, meta, protoFile)
-			if err != nil {
-				return err
-			}
-			if !fileSuccess {
-				success = false
-			}
+		allProtoFiles = append(allProtoFiles, protoFiles...)
+	}
+	// the map order is random, the output order must not be
+	sort.Slice(allProtoFiles, func(i int, j int) bool { return allProtoFiles[i].DisplayPath < allProtoFiles[j].DisplayPath })
+	success := true
+	for _, protoFile := range allProtoFiles {
+		fileSuccess, err := r.formatFile(overwrite, diffMode, lintMode, fix, fileHeader, javaPackagePrefix, meta, protoFile)
+		if err != nil {
+			return err
+		}
+		if !fileSuccess {
+			success = false
 		}
 	}
 	if !success {
-- 
2.43.0


From 681cd441f27fb82569bc539b701e2f456a601d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:48 +0000
Subject: [PATCH 09/45] fix: format keeps the required and repeated labels of
 groups

---
 internal/format/main_visitor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/format/main_visitor.go b/internal/format/main_visitor.go
index dfdec19..d797de7 100644
--- a/internal/format/main_visitor.go
+++ b/internal/format/main_visitor.go
@@ -262,9 +262,13 @@ func (v *mainVisitor) VisitGroup(element *proto.Group) {
 	v.haveHitNonComment = true
 	v.PComment(element.Comment)
 	prefix := ""
-	// TODO: required and repeated not handled yet, add when handled
-	if element.Optional {
+	switch {
+	case element.Optional:
 		prefix = "optional "
+	case element.Required:
+		prefix = "required "
+	case element.Repeated:
+		prefix = "repeated "
 	}
 	if len(element.Elements) == 0 {
 		v.P(prefix, "group ", element.Name, " = ", element.Sequence, " {}")
-- 
2.43.0


From 1f9f41ae28f98ae90c8829de8828870a7f51423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:48 +0000
Subject: [PATCH 10/45] fix: format keeps the optional label of proto3 fields

---
 internal/format/main_visitor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/format/main_visitor.go b/internal/format/main_visitor.go
index d797de7..046d6d3 100644
--- a/internal/format/main_visitor.go
+++ b/internal/format/main_visitor.go
@@ -140,6 +140,8 @@ func (v *mainVisitor) VisitNormalField(element *proto.NormalField) {
 		} else {
 			prefix = "optional "
 		}
+	} else if element.Optional {
+		prefix = "optional "
 	}
 	if element.Repeated {
 		prefix = "repeated "
-- 
2.43.0


From 4b9a0439c3111e89a68a99123728e728e1bae21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:48 +0000
Subject: [PATCH 11/45] fix: format keeps the order of options with the same
 name

---
 internal/format/base_visitor.go       | 2 +-
 internal/format/first_pass_visitor.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index b5780fe..e65a28e 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -108,7 +108,7 @@ func (v *baseVisitor) pOptions(isFieldOption bool, options ...*proto.Option) {
 	if len(options) == 0 {
 		return
 	}
-	sort.Slice(options, func(i int, j int) bool { return options[i].Name < options[j].Name })
+	sort.SliceStable(options, func(i int, j int) bool { return options[i].Name < options[j].Name })
 	prefix := "option "
 	if isFieldOption {
 		prefix = ""
diff --git a/internal/format/first_pass_visitor.go b/internal/format/first_pass_visitor.go
index 773687c..1511c60 100644
--- a/internal/format/first_pass_visitor.go
+++ b/internal/format/first_pass_visitor.go
@@ -289,7 +289,7 @@ func (v *firstPassVisitor) PImports(imports []*proto.Import) {
 	if len(imports) == 0 {
 		return
 	}
-	sort.Slice(imports, func(i int, j int) bool { return imports[i].Filename < imports[j].Filename })
+	sort.SliceStable(imports, func(i int, j int) bool { return imports[i].Filename < imports[j].Filename })
 	for _, i := range imports {
 		v.PComment(i.Comment)
 		// kind can be "weak", "public", or empty
-- 
2.43.0


From e26105dd2b2206e0f24b4028f8ded42fd75caece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:57 +0000
Subject: [PATCH 12/45] fix: format keeps options whose value is an empty
 message

---
 internal/format/base_visitor.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index e65a28e..293e799 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -123,18 +123,16 @@ func (v *baseVisitor) pOptions(isFieldOption bool, options ...*proto.Option) {
 			}
 		}
 		v.PComment(o.Comment)
-		if isSingleValueLiteral(o.Constant) {
-			// SourceRepresentation() returns an empty string if the literal is empty
-			// if empty, we do not want to print the key or empty value
-			if source := o.Constant.SourceRepresentation(); source != "" {
-				v.PWithInlineComment(o.InlineComment, prefix, o.Name, ` = `, source, suffix)
-			}
+		// SourceRepresentation() returns an empty string if the literal is empty,
+		// in which case it is an empty aggregate
+		if source := o.Constant.SourceRepresentation(); source != "" {
+			v.PWithInlineComment(o.InlineComment, prefix, o.Name, ` = `, source, suffix)
 		} else if len(o.Constant.Array) > 0 { // both Array and OrderedMap should not be set simultaneously, need more followup with emicklei/proto
 			v.Failures = append(
 				v.Failures,
 				text.NewFailuref(o.Position, "INVALID_PROTOBUF", "top-level options should never be arrays, this should not compile with protoc"),
 			)
-		} else { // len(o.Constant.OrderedMap) > 0
+		} else { // OrderedMap, possibly empty
 			v.P(prefix, o.Name, ` = {`)
 			v.In()
 			for _, namedLiteral := range o.Constant.OrderedMap {
@@ -154,9 +152,12 @@ func (v *baseVisitor) pInnerLiteral(name string, literal proto.Literal, suffix s
 	}
 	if isSingleValueLiteral(literal) {
 		// SourceRepresentation() returns an empty string if the literal is empty
-		// if empty, we do not want to print the key or empty value
+		// if empty, we do not want to print the key or empty value,
+		// but an empty element of an array has to stay
 		if source := literal.SourceRepresentation(); source != "" {
 			v.P(prefix, source, suffix)
+		} else if name == "" {
+			v.P(`{}`, suffix)
 		}
 	} else if len(literal.Array) > 0 { // both Array and OrderedMap should not be set simultaneously, need more followup with emicklei/proto
 		v.P(prefix, `[`)
-- 
2.43.0


From 4294c273aa0157b3b339c80ef707a2e3b931f87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:57 +0000
Subject: [PATCH 13/45] fix: format keeps the comment of a single field option

---
 internal/format/base_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index 293e799..29f1bc9 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -90,7 +90,7 @@ func (v *baseVisitor) pMessageOrEnumField(prefix string, fieldName string, field
 	}
 	if len(options) == 1 {
 		o := options[0]
-		if isSingleValueLiteral(o.Constant) {
+		if isSingleValueLiteral(o.Constant) && o.Comment == nil {
 			if source := o.Constant.SourceRepresentation(); source != "" {
 				v.PWithInlineComment(inlineComment, prefix, fieldType, fieldName, " = ", fieldTag, " [", o.Name, ` = `, source, "];")
 				return
-- 
2.43.0


From b44a6fc3b4619de69b387119b578cc51d5bc8984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:18 +0000
Subject: [PATCH 14/45] fix: format --fix keeps the comment of syntax below a
 file header

---
 internal/format/first_pass_visitor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/format/first_pass_visitor.go b/internal/format/first_pass_visitor.go
index 1511c60..5e572d9 100644
--- a/internal/format/first_pass_visitor.go
+++ b/internal/format/first_pass_visitor.go
@@ -64,9 +64,12 @@ func (v *firstPassVisitor) Do() []*text.Failure {
 	}
 	if v.Syntax != nil {
 		v.PComment(v.Syntax.Comment)
-		if v.Syntax.Comment != nil {
+		if v.Syntax.Comment != nil && (v.fix == FixNone || v.fileHeader == "") {
 			// special case, we add a newline in between the first comment and syntax
 			// to separate licenses, file descriptions, etc.
+			//
+			// this is not done below a file header, as a comment that is separate from
+			// syntax would be replaced with the file header the next time
 			v.P()
 		}
 		v.PWithInlineComment(v.Syntax.InlineComment, `syntax = "`, v.Syntax.Value, `";`)
-- 
2.43.0


From ca5587e835f4307410e5cc881f1b596068a89cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:23 +0000
Subject: [PATCH 15/45] fix: format --fix keeps the file options it does not
 set without uber2

---
 internal/format/first_pass_visitor.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/format/first_pass_visitor.go b/internal/format/first_pass_visitor.go
index 5e572d9..5070fb0 100644
--- a/internal/format/first_pass_visitor.go
+++ b/internal/format/first_pass_visitor.go
@@ -206,9 +206,6 @@ func (v *firstPassVisitor) VisitOption(element *proto.Option) {
 	v.haveHitNonComment = true
 	if v.fix != FixNone {
 		switch element.Name {
-		case "csharp_namespace":
-			v.csharpNamespaceOption = element
-			return
 		case "go_package":
 			v.goPackageOption = element
 			return
@@ -221,6 +218,14 @@ func (v *firstPassVisitor) VisitOption(element *proto.Option) {
 		case "java_package":
 			v.javaPackageOption = element
 			return
+		}
+	}
+	// these are only set by Do if fix is FixV2
+	if v.fix == FixV2 {
+		switch element.Name {
+		case "csharp_namespace":
+			v.csharpNamespaceOption = element
+			return
 		case "objc_class_prefix":
 			v.objcClassPrefixOption = element
 			return
-- 
2.43.0


From 8dab85b0781da7f0ff2fa7afdcfcbb7ba5530547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:40 +0000
Subject: [PATCH 16/45] fix: format --fix keeps the file options of files
 without a package

---
 internal/format/first_pass_visitor.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/internal/format/first_pass_visitor.go b/internal/format/first_pass_visitor.go
index 5070fb0..bf97f46 100644
--- a/internal/format/first_pass_visitor.go
+++ b/internal/format/first_pass_visitor.go
@@ -163,6 +163,22 @@ func (v *firstPassVisitor) Do() []*text.Failure {
 			)
 		}
 	}
+	if v.Package == nil {
+		// without a package there are no values to set, so keep the existing options
+		for _, option := range []*proto.Option{
+			v.goPackageOption,
+			v.javaMultipleFilesOption,
+			v.javaOuterClassnameOption,
+			v.javaPackageOption,
+			v.csharpNamespaceOption,
+			v.objcClassPrefixOption,
+			v.phpNamespaceOption,
+		} {
+			if option != nil {
+				v.Options = append(v.Options, option)
+			}
+		}
+	}
 	if len(v.Options) > 0 {
 		v.POptions(v.Options...)
 		v.P()
-- 
2.43.0


From 690a8df7b49a444f1f5fff49371bcb5787e0ecd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 17/45] fix: java_outer_classname of a file name with dots is a
 class name

---
 internal/protostrs/protostrs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/protostrs/protostrs.go b/internal/protostrs/protostrs.go
index de49b2c..a70da0f 100644
--- a/internal/protostrs/protostrs.go
+++ b/internal/protostrs/protostrs.go
@@ -94,7 +94,8 @@ func JavaOuterClassname(filename string) string {
 	}
 	filename = filepath.Base(filename)
 	filename = strings.TrimSuffix(filename, filepath.Ext(filename))
-	return strs.ToUpperCamelCase(filename) + "Proto"
+	// a class name cannot have any dots left in the basename
+	return strs.ToUpperCamelCase(strings.Replace(filename, ".", "_", -1)) + "Proto"
 }
 
 // JavaPackage returns the value for the file option "java_package" given
-- 
2.43.0


From 5c75c7a7872134e27211f02c8d75d29bea74c0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:27 +0000
Subject: [PATCH 18/45] fix: extends no longer stand in for the messages of the
 same name in lint rules

---
 ...ck_messages_have_comments_except_request_response_types.go | 4 ++++
 ...es_have_sentence_comments_except_request_response_types.go | 4 ++++
 .../check_messages_not_empty_except_request_response_types.go | 4 ++++
 internal/lint/check_request_response_types_after_service.go   | 4 ++++
 internal/lint/check_request_response_types_in_same_file.go    | 4 ++++
 internal/lint/check_request_response_types_only_in_file.go    | 4 ++++
 6 files changed, 24 insertions(+)

diff --git a/internal/lint/check_messages_have_comments_except_request_response_types.go b/internal/lint/check_messages_have_comments_except_request_response_types.go
index bb9d01a..de4db94 100644
--- a/internal/lint/check_messages_have_comments_except_request_response_types.go
+++ b/internal/lint/check_messages_have_comments_except_request_response_types.go
@@ -57,6 +57,10 @@ func (v *messagesHaveCommentsExceptRequestResponseTypesVisitor) VisitMessage(mes
 		child.Accept(v)
 	}
 	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
+	// an extend has the name of the message it extends
+	if message.IsExtend {
+		return
+	}
 
 	if v.messageNameToMessage == nil {
 		v.messageNameToMessage = make(map[string]*proto.Message)
diff --git a/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go b/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go
index 41e6a46..19fc164 100644
--- a/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go
+++ b/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go
@@ -57,6 +57,10 @@ func (v *messagesHaveSentenceCommentsExceptRequestResponseTypesVisitor) VisitMes
 		child.Accept(v)
 	}
 	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
+	// an extend has the name of the message it extends
+	if message.IsExtend {
+		return
+	}
 
 	if v.messageNameToMessage == nil {
 		v.messageNameToMessage = make(map[string]*proto.Message)
diff --git a/internal/lint/check_messages_not_empty_except_request_response_types.go b/internal/lint/check_messages_not_empty_except_request_response_types.go
index 7804315..25b1213 100644
--- a/internal/lint/check_messages_not_empty_except_request_response_types.go
+++ b/internal/lint/check_messages_not_empty_except_request_response_types.go
@@ -66,6 +66,10 @@ func (v *messagesNotEmptyExceptRequestResponseTypesVisitor) VisitMessage(message
 	}
 	v.curFieldCount = oldFieldCount
 	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
+	// an extend has the name of the message it extends
+	if message.IsExtend {
+		return
+	}
 
 	if v.messageNameToWrapper == nil {
 		v.messageNameToWrapper = make(map[string]*messagesNotEmptyExceptRequestResponseTypesWrapper)
diff --git a/internal/lint/check_request_response_types_after_service.go b/internal/lint/check_request_response_types_after_service.go
index 63d1401..7c67cdf 100644
--- a/internal/lint/check_request_response_types_after_service.go
+++ b/internal/lint/check_request_response_types_after_service.go
@@ -50,6 +50,10 @@ func (v *requestResponseTypesAfterServiceVisitor) OnStart(*FileDescriptor) error
 }
 
 func (v *requestResponseTypesAfterServiceVisitor) VisitMessage(message *proto.Message) {
+	// an extend has the name of the message it extends
+	if message.IsExtend {
+		return
+	}
 	if v.messageNameToMessage == nil {
 		v.messageNameToMessage = make(map[string]*proto.Message)
 	}
diff --git a/internal/lint/check_request_response_types_in_same_file.go b/internal/lint/check_request_response_types_in_same_file.go
index f872894..824590a 100644
--- a/internal/lint/check_request_response_types_in_same_file.go
+++ b/internal/lint/check_request_response_types_in_same_file.go
@@ -58,6 +58,10 @@ func (v *requestResponseTypesInSameFileVisitor) VisitMessage(message *proto.Mess
 		child.Accept(v)
 	}
 	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
+	// an extend has the name of the message it extends
+	if message.IsExtend {
+		return
+	}
 
 	if v.messageTypes == nil {
 		v.messageTypes = make(map[string]struct{})
diff --git a/internal/lint/check_request_response_types_only_in_file.go b/internal/lint/check_request_response_types_only_in_file.go
index 7c2433f..e797c1e 100644
--- a/internal/lint/check_request_response_types_only_in_file.go
+++ b/internal/lint/check_request_response_types_only_in_file.go
@@ -59,6 +59,10 @@ func (v *requestResponseTypesOnlyInFileVisitor) VisitEnum(enum *proto.Enum) {
 }
 
 func (v *requestResponseTypesOnlyInFileVisitor) VisitMessage(message *proto.Message) {
+	// an extend has the name of the message it extends
+	if message.IsExtend {
+		return
+	}
 	if v.messageNameToMessage == nil {
 		v.messageNameToMessage = make(map[string]*proto.Message)
 	}
-- 
2.43.0


From e2c02a606fdab8ade0a35636dcb83038522e239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:27 +0000
Subject: [PATCH 19/45] fix: recognise .google.protobuf.Timestamp and Duration
 in lint rules

---
 internal/lint/check_message_fields_duration.go | 2 +-
 internal/lint/check_message_fields_time.go     | 2 +-
 internal/lint/check_wkt_duration_suffix.go     | 2 +-
 internal/lint/check_wkt_timestamp_suffix.go    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/lint/check_message_fields_duration.go b/internal/lint/check_message_fields_duration.go
index 81785cd..28fa63c 100644
--- a/internal/lint/check_message_fields_duration.go
+++ b/internal/lint/check_message_fields_duration.go
@@ -64,7 +64,7 @@ func (v messageFieldsDurationVisitor) VisitOneofField(field *proto.OneOfField) {
 // no map fields on purpose
 
 func (v messageFieldsDurationVisitor) visitField(field *proto.Field) {
-	if strings.Contains(field.Name, "duration") && field.Type != "google.protobuf.Duration" {
+	if strings.Contains(field.Name, "duration") && strings.TrimPrefix(field.Type, ".") != "google.protobuf.Duration" {
 		v.AddFailuref(field.Position, `Field %q must be a google.protobuf.Duration.`, field.Name)
 	}
 }
diff --git a/internal/lint/check_message_fields_time.go b/internal/lint/check_message_fields_time.go
index 9fa2879..6da8b78 100644
--- a/internal/lint/check_message_fields_time.go
+++ b/internal/lint/check_message_fields_time.go
@@ -64,7 +64,7 @@ func (v messageFieldsTimeVisitor) VisitOneofField(field *proto.OneOfField) {
 // no map fields on purpose
 
 func (v messageFieldsTimeVisitor) visitField(field *proto.Field) {
-	if strings.Contains(field.Name, "time") && field.Type != "google.protobuf.Timestamp" {
+	if strings.Contains(field.Name, "time") && strings.TrimPrefix(field.Type, ".") != "google.protobuf.Timestamp" {
 		v.AddFailuref(field.Position, `Field %q must be a google.protobuf.Timestamp.`, field.Name)
 	}
 }
diff --git a/internal/lint/check_wkt_duration_suffix.go b/internal/lint/check_wkt_duration_suffix.go
index be350fd..c93300a 100644
--- a/internal/lint/check_wkt_duration_suffix.go
+++ b/internal/lint/check_wkt_duration_suffix.go
@@ -62,7 +62,7 @@ func (v wktDurationSuffixVisitor) VisitOneofField(field *proto.OneOfField) {
 }
 
 func (v wktDurationSuffixVisitor) visitField(field *proto.Field) {
-	if field.Type == "google.protobuf.Duration" && !(field.Name == "duration" || strings.HasSuffix(field.Name, "_duration")) {
+	if strings.TrimPrefix(field.Type, ".") == "google.protobuf.Duration" && !(field.Name == "duration" || strings.HasSuffix(field.Name, "_duration")) {
 		v.AddFailuref(field.Position, `Field %q of type "google.protobuf.Duration" must be "duration" or end in "_duration".`, field.Name)
 	}
 }
diff --git a/internal/lint/check_wkt_timestamp_suffix.go b/internal/lint/check_wkt_timestamp_suffix.go
index 4fbfb29..3bfb77d 100644
--- a/internal/lint/check_wkt_timestamp_suffix.go
+++ b/internal/lint/check_wkt_timestamp_suffix.go
@@ -62,7 +62,7 @@ func (v wktTimestampSuffixVisitor) VisitOneofField(field *proto.OneOfField) {
 }
 
 func (v wktTimestampSuffixVisitor) visitField(field *proto.Field) {
-	if field.Type == "google.protobuf.Timestamp" && !(field.Name == "time" || strings.HasSuffix(field.Name, "_time")) {
+	if strings.TrimPrefix(field.Type, ".") == "google.protobuf.Timestamp" && !(field.Name == "time" || strings.HasSuffix(field.Name, "_time")) {
 		v.AddFailuref(field.Position, `Field %q of type "google.protobuf.Timestamp" must be "time" or end in "_time".`, field.Name)
 	}
 }
-- 
2.43.0


From 501c157372445c51385bf0518537c50c918f1476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:27 +0000
Subject: [PATCH 20/45] fix: sentence comments that start with a letter outside
 ASCII

---
 internal/lint/lint.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/lint/lint.go b/internal/lint/lint.go
index ac93d4e..904d19b 100644
--- a/internal/lint/lint.go
+++ b/internal/lint/lint.go
@@ -27,6 +27,7 @@ import (
 	"path/filepath"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/emicklei/proto"
 	"github.com/uber/prototool/internal/file"
@@ -547,7 +548,8 @@ func commentStartsWithUppercaseLetter(comment *proto.Comment) bool {
 	if firstLine == "" {
 		return false
 	}
-	return unicode.IsUpper(rune(firstLine[0])) || unicode.IsDigit(rune(firstLine[0]))
+	first, _ := utf8.DecodeRuneInString(firstLine)
+	return unicode.IsUpper(first) || unicode.IsDigit(first)
 }
 
 func commentContainsPeriod(comment *proto.Comment) bool {
-- 
2.43.0


From 9a2ac77f31681a0fe420962fae36e609e8434013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:27 +0000
Subject: [PATCH 21/45] fix: lint ignores of the configuration file's own
 directory take effect

---
 internal/lint/lint.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/lint/lint.go b/internal/lint/lint.go
index 904d19b..41d1780 100644
--- a/internal/lint/lint.go
+++ b/internal/lint/lint.go
@@ -522,7 +522,14 @@ func shouldIgnore(linter Linter, descriptor *FileDescriptor, ignoreIDToFilePaths
 	if !ok {
 		return false, nil
 	}
-	return file.IsExcluded(filePath, descriptor.ProtoSet.Config.DirPath, ignoreFilePaths...), nil
+	for _, ignoreFilePath := range ignoreFilePaths {
+		// a directory is ignored with all of its sub-directories, which
+		// includes the directory of the configuration file itself
+		if file.IsWithin(ignoreFilePath, filePath) {
+			return true, nil
+		}
+	}
+	return false, nil
 }
 
 func checkLintID(lintID string) error {
-- 
2.43.0


From 02279f65e4c45d79ed91cc41254d1846990c534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:10 +0000
Subject: [PATCH 22/45] fix: break check compares every name of aliased enum
 values

---
 .../breaking/check_enum_values_same_name.go   | 23 ++++++++++-----
 internal/breaking/helpers.go                  | 29 -------------------
 2 files changed, 16 insertions(+), 36 deletions(-)

diff --git a/internal/breaking/check_enum_values_same_name.go b/internal/breaking/check_enum_values_same_name.go
index 69a70dd..4c61e76 100644
--- a/internal/breaking/check_enum_values_same_name.go
+++ b/internal/breaking/check_enum_values_same_name.go
@@ -26,15 +26,24 @@ import (
 )
 
 func checkEnumValuesSameName(addFailure func(*text.Failure), from *extract.PackageSet, to *extract.PackageSet) error {
-	return forEachEnumValuePair(addFailure, from, to, checkEnumValuesSameNameEnumValue)
+	return forEachEnumPair(addFailure, from, to, checkEnumValuesSameNameEnum)
 }
 
-func checkEnumValuesSameNameEnumValue(addFailure func(*text.Failure), from *extract.EnumValue, to *extract.EnumValue) error {
-	fromName := from.ProtoMessage().Name
-	toName := to.ProtoMessage().Name
-	if fromName != toName {
-		addFailure(newEnumValuesSameNameFailure(from.Enum().FullyQualifiedName(), from.ProtoMessage().Number, fromName, toName))
-		return nil
+func checkEnumValuesSameNameEnum(addFailure func(*text.Failure), from *extract.Enum, to *extract.Enum) error {
+	toValueNameToValue := to.ValueNameToValue()
+	toValueNumberToValue := to.ValueNumberToValue()
+	// with allow_alias there can be many names for the same number, so this must go over the names
+	for fromName, fromValue := range from.ValueNameToValue() {
+		number := fromValue.ProtoMessage().Number
+		// checkEnumValuesNotDeleted will check for deleted numbers
+		toValueForNumber, ok := toValueNumberToValue[number]
+		if !ok {
+			continue
+		}
+		if toValue, ok := toValueNameToValue[fromName]; ok && toValue.ProtoMessage().Number == number {
+			continue
+		}
+		addFailure(newEnumValuesSameNameFailure(from.FullyQualifiedName(), number, fromName, toValueForNumber.ProtoMessage().Name))
 	}
 	return nil
 }
diff --git a/internal/breaking/helpers.go b/internal/breaking/helpers.go
index 8bdd6c8..b872d7d 100644
--- a/internal/breaking/helpers.go
+++ b/internal/breaking/helpers.go
@@ -200,35 +200,6 @@ func forEachEnumPairInternal(
 	return nil
 }
 
-func forEachEnumValuePair(
-	addFailure func(*text.Failure),
-	from *extract.PackageSet,
-	to *extract.PackageSet,
-	f func(
-		func(*text.Failure),
-		*extract.EnumValue,
-		*extract.EnumValue,
-	) error,
-) error {
-	return forEachEnumPair(
-		addFailure,
-		from,
-		to,
-		func(addFailure func(*text.Failure), fromEnum *extract.Enum, toEnum *extract.Enum) error {
-			fromValueNumberToValue := fromEnum.ValueNumberToValue()
-			toValueNumberToValue := toEnum.ValueNumberToValue()
-			for fromValueNumber, fromValue := range fromValueNumberToValue {
-				if toValue, ok := toValueNumberToValue[fromValueNumber]; ok {
-					if err := f(addFailure, fromValue, toValue); err != nil {
-						return err
-					}
-				}
-			}
-			return nil
-		},
-	)
-}
-
 func forEachServicePair(
 	addFailure func(*text.Failure),
 	from *extract.PackageSet,
-- 
2.43.0


From 5bba21d7f35331d5ee3f562b71158bee2e30a309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:15 +0000
Subject: [PATCH 23/45] fix: break check works in directories whose path
 contains a percent sign

---
 internal/git/git.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/git/git.go b/internal/git/git.go
index fbf3fbd..89bfce4 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -24,6 +24,7 @@ package git
 import (
 	"fmt"
 	"io/ioutil"
+	"net/url"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -58,7 +59,9 @@ func TemporaryClone(logger *zap.Logger, dirPath string, branchOrTag string) (str
 	if branchOrTag != "" {
 		args = append(args, "--branch", branchOrTag)
 	}
-	args = append(args, fmt.Sprintf("file://%s", absDirPath), cloneDirPath)
+	// git decodes percent-encoded characters
+	cloneURL := &url.URL{Scheme: "file", Path: absDirPath}
+	args = append(args, cloneURL.String(), cloneDirPath)
 	logger.Sugar().Debugf("git %s", strings.Join(args, " "))
 	output, err := exec.Command("git", args...).CombinedOutput()
 	if err != nil {
-- 
2.43.0


From c4ff31586ffdc093e2889c8a800534e7ad0b2329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:15 +0000
Subject: [PATCH 24/45] fix: break check removes its temporary directory when
 git clone fails

---
 internal/git/git.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/git/git.go b/internal/git/git.go
index 89bfce4..ea5b314 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -65,6 +65,7 @@ func TemporaryClone(logger *zap.Logger, dirPath string, branchOrTag string) (str
 	logger.Sugar().Debugf("git %s", strings.Join(args, " "))
 	output, err := exec.Command("git", args...).CombinedOutput()
 	if err != nil {
+		_ = os.RemoveAll(cloneDirPath)
 		return "", fmt.Errorf("git %s had error: %s", strings.Join(args, " "), string(output))
 	}
 	return cloneDirPath, nil
-- 
2.43.0


From 00198b5ceccf32164cf39ecbd34ae9e44ea06fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:15 +0000
Subject: [PATCH 25/45] fix: break check run from a git hook leaves the
 repository's index alone

---
 internal/git/git.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/internal/git/git.go b/internal/git/git.go
index ea5b314..d60f6a4 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -63,10 +63,36 @@ func TemporaryClone(logger *zap.Logger, dirPath string, branchOrTag string) (str
 	cloneURL := &url.URL{Scheme: "file", Path: absDirPath}
 	args = append(args, cloneURL.String(), cloneDirPath)
 	logger.Sugar().Debugf("git %s", strings.Join(args, " "))
-	output, err := exec.Command("git", args...).CombinedOutput()
+	cmd := exec.Command("git", args...)
+	cmd.Env = cloneEnv(os.Environ())
+	output, err := cmd.CombinedOutput()
 	if err != nil {
 		_ = os.RemoveAll(cloneDirPath)
 		return "", fmt.Errorf("git %s had error: %s", strings.Join(args, " "), string(output))
 	}
 	return cloneDirPath, nil
 }
+
+// cloneEnv removes the variables that point git to the current repository.
+//
+// Git sets these for hooks, where git clone would otherwise write to the
+// index of the current repository.
+func cloneEnv(environ []string) []string {
+	env := make([]string, 0, len(environ))
+	for _, keyValue := range environ {
+		switch strings.SplitN(keyValue, "=", 2)[0] {
+		case "GIT_ALTERNATE_OBJECT_DIRECTORIES",
+			"GIT_COMMON_DIR",
+			"GIT_DIR",
+			"GIT_INDEX_FILE",
+			"GIT_NAMESPACE",
+			"GIT_OBJECT_DIRECTORY",
+			"GIT_PREFIX",
+			"GIT_SHALLOW_FILE",
+			"GIT_WORK_TREE":
+		default:
+			env = append(env, keyValue)
+		}
+	}
+	return env
+}
-- 
2.43.0


From 0fdf32c1d9dd5c7362288862d9ab6700cd585351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:39 +0000
Subject: [PATCH 26/45] fix: the walk timeout is free of data races and a walk
 that just finished is complete

---
 internal/file/proto_set_provider.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index d71d6b8..16d68d2 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -26,6 +26,7 @@ import (
 	"path/filepath"
 	"sort"
 	"strings"
+	"sync/atomic"
 	"time"
 
 	"github.com/uber/prototool/internal/settings"
@@ -213,7 +214,8 @@ func (c *protoSetProvider) getConfig(absDirPath string) (settings.Config, error)
 func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDirPath string) ([]*ProtoFile, error) {
 	var protoFiles []*ProtoFile
 	var numWalkedFiles int
-	var timedOut bool
+	// set to 1 if the walk timed out, accessed atomically
+	var timedOut int32
 	var excludes []string
 	var err error
 	// if we have a configData, we compute the exclude prefixes once
@@ -236,7 +238,7 @@ func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDir
 					return err
 				}
 				numWalkedFiles++
-				if timedOut {
+				if atomic.LoadInt32(&timedOut) != 0 {
 					return fmt.Errorf("walking the directory structure looking for proto files "+
 						"timed out after %v and having seen %d files, are you sure you are operating "+
 						"in the right context?", c.walkTimeout, numWalkedFiles)
@@ -291,11 +293,12 @@ func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDir
 		}
 		return protoFiles, nil
 	case <-time.After(c.walkTimeout):
-		timedOut = true
+		atomic.StoreInt32(&timedOut, 1)
 		if walkErr := <-walkErrC; walkErr != nil {
 			return nil, walkErr
 		}
-		return nil, fmt.Errorf("internal prototool error")
+		// the walk had just finished
+		return protoFiles, nil
 	}
 }
 
-- 
2.43.0


From 4db3f76f8e23d759e9fa0f2f5052044e940c8292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:58 +0000
Subject: [PATCH 27/45] fix: a symlink as directory argument or working
 directory is walked

---
 internal/file/proto_set_provider.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index 16d68d2..bb280c6 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -232,11 +232,13 @@ func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDir
 	walkErrC := make(chan error)
 	go func() {
 		walkErrC <- filepath.Walk(
-			absDirPath,
+			// the separator makes the walk enter absDirPath if it is a symlink
+			absDirPath+string(os.PathSeparator),
 			func(filePath string, fileInfo os.FileInfo, err error) error {
 				if err != nil {
 					return err
 				}
+				filePath = filepath.Clean(filePath)
 				numWalkedFiles++
 				if atomic.LoadInt32(&timedOut) != 0 {
 					return fmt.Errorf("walking the directory structure looking for proto files "+
-- 
2.43.0


From e30ffae8149b04ba58610ffd8838eea18bc42800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:36 +0000
Subject: [PATCH 28/45] fix: break check of a file prints why the other side of
 the comparison does not compile

---
 internal/exec/runner.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 2d5d61c..d23f63e 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -1165,7 +1165,12 @@ func (r *runner) printFailuresForErrorFormat(errorFormat string, filename string
 				if err != nil {
 					return err
 				}
-				absFailureFilename, err := file.AbsClean(failure.Filename)
+				// failures are relative to the working directory of the runner
+				failureFilename := failure.Filename
+				if !filepath.IsAbs(failureFilename) {
+					failureFilename = filepath.Join(r.workDirPath, failureFilename)
+				}
+				absFailureFilename, err := file.AbsClean(failureFilename)
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From 795430f6d69d386473498fbddd18f2d9e68326de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:21 +0000
Subject: [PATCH 29/45] fix: break check reports descriptor sets whose oneof
 indexes are out of range

---
 internal/reflect/reflect.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/reflect/reflect.go b/internal/reflect/reflect.go
index a923bff..c5c67cb 100644
--- a/internal/reflect/reflect.go
+++ b/internal/reflect/reflect.go
@@ -327,8 +327,11 @@ func newMessage(descriptorProto *descriptor.DescriptorProto) (*reflectv1.Message
 			TypeName: typeName,
 		})
 		if fieldDescriptorProto.OneofIndex != nil {
-			// TODO: super unsafe
-			messageOneof := nameToMessageOneof[descriptorProto.GetOneofDecl()[fieldDescriptorProto.GetOneofIndex()].GetName()]
+			oneofIndex := int(fieldDescriptorProto.GetOneofIndex())
+			if oneofIndex < 0 || oneofIndex >= len(descriptorProto.GetOneofDecl()) {
+				return nil, fmt.Errorf("oneof index %d of field %s of message %s is out of range", oneofIndex, fieldDescriptorProto.GetName(), descriptorProto.GetName())
+			}
+			messageOneof := nameToMessageOneof[descriptorProto.GetOneofDecl()[oneofIndex].GetName()]
 			messageOneof.FieldNumbers = append(messageOneof.FieldNumbers, fieldDescriptorProto.GetNumber())
 		}
 	}
-- 
2.43.0


From 24729623827313b76f62c652f9f48b516f289739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:27 +0000
Subject: [PATCH 30/45] fix: grpc resolves the types of google.protobuf.Any in
 requests among all compiled files

---
 internal/grpc/handler.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/grpc/handler.go b/internal/grpc/handler.go
index 3302c30..5f0dd92 100644
--- a/internal/grpc/handler.go
+++ b/internal/grpc/handler.go
@@ -97,7 +97,7 @@ func (h *handler) Invoke(fileDescriptorSets []*descriptor.FileDescriptorSet, add
 		method,
 		h.headers,
 		invocationEventHandler,
-		decodeFunc(inputReader),
+		decodeFunc(inputReader, anyResolver),
 	); err != nil {
 		return err
 	}
@@ -208,14 +208,17 @@ func getServiceForMethod(method string) (string, error) {
 	return split[0], nil
 }
 
-func decodeFunc(reader io.Reader) func(proto.Message) error {
+func decodeFunc(reader io.Reader, anyResolver jsonpb.AnyResolver) func(proto.Message) error {
 	decoder := json.NewDecoder(reader)
+	unmarshaler := &jsonpb.Unmarshaler{
+		AnyResolver: anyResolver,
+	}
 	return func(message proto.Message) error {
 		var rawMessage json.RawMessage
 		if err := decoder.Decode(&rawMessage); err != nil {
 			return err
 		}
-		return jsonpb.Unmarshal(bytes.NewReader(rawMessage), message)
+		return unmarshaler.Unmarshal(bytes.NewReader(rawMessage), message)
 	}
 }
 
-- 
2.43.0


From c6d4b5a9233c79581e3360135ec0c405e8048e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:32 +0000
Subject: [PATCH 31/45] fix: grpc fails when a response cannot be printed

---
 internal/grpc/invocation_event_handler.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/grpc/invocation_event_handler.go b/internal/grpc/invocation_event_handler.go
index 74622f4..38fc6f9 100644
--- a/internal/grpc/invocation_event_handler.go
+++ b/internal/grpc/invocation_event_handler.go
@@ -22,6 +22,7 @@ package grpc
 
 import (
 	"encoding/json"
+	"fmt"
 	"io"
 	"reflect"
 
@@ -96,7 +97,7 @@ func (i *invocationEventHandler) printProtoMessage(input proto.Message, detailsK
 	}
 	s, err := i.jsonpbMarshaler.MarshalToString(input)
 	if err != nil {
-		i.logger.Error("marshal error", zap.Error(err))
+		i.fail("marshal error", err)
 		return
 	}
 	i.println(i.marshalSanitize(s, detailsKey))
@@ -108,7 +109,7 @@ func (i *invocationEventHandler) printMetadata(input metadata.MD, detailsKey str
 	}
 	data, err := json.Marshal(input)
 	if err != nil {
-		i.logger.Error("marshal error", zap.Error(err))
+		i.fail("marshal error", err)
 		return
 	}
 	i.println(i.marshalSanitize(string(data), detailsKey))
@@ -129,6 +130,15 @@ func (i *invocationEventHandler) println(s string) {
 		return
 	}
 	if _, err := i.output.Write([]byte(s + "\n")); err != nil {
-		i.logger.Error("write error", zap.Error(err))
+		i.fail("write error", err)
+	}
+}
+
+// fail records an error of the output, which is incomplete then. A status
+// other than OK received afterwards takes precedence.
+func (i *invocationEventHandler) fail(message string, err error) {
+	i.logger.Error(message, zap.Error(err))
+	if i.err == nil {
+		i.err = fmt.Errorf("%s: %v", message, err)
 	}
 }
-- 
2.43.0


From a47d6d3b3dc015aef6351e1b04b3446ec2cbff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:36 +0000
Subject: [PATCH 32/45] fix: grpc sends every value of a header given more than
 once

---
 internal/exec/runner.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index d23f63e..0aa0131 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -624,13 +624,14 @@ func (r *runner) GRPC(args, headers []string, address, method, data, callTimeout
 	}
 	reader := r.getInputReader(data, stdin)
 
-	parsedHeaders := make(map[string]string)
+	// a header can be given more than once
+	parsedHeaders := make([][2]string, 0, len(headers))
 	for _, header := range headers {
 		split := strings.SplitN(header, ":", 2)
 		if len(split) != 2 {
 			return fmt.Errorf("headers must be key:value but got %s", header)
 		}
-		parsedHeaders[split[0]] = split[1]
+		parsedHeaders = append(parsedHeaders, [2]string{split[0], split[1]})
 	}
 	var parsedCallTimeout time.Duration
 	var parsedConnectTimeout time.Duration
@@ -1055,7 +1056,7 @@ func (r *runner) newCreateHandler(pkg string) create.Handler {
 }
 
 func (r *runner) newGRPCHandler(
-	headers map[string]string,
+	headers [][2]string,
 	callTimeout time.Duration,
 	connectTimeout time.Duration,
 	keepaliveTime time.Duration,
@@ -1070,8 +1071,8 @@ func (r *runner) newGRPCHandler(
 	handlerOptions := []grpc.HandlerOption{
 		grpc.HandlerWithLogger(r.logger),
 	}
-	for key, value := range headers {
-		handlerOptions = append(handlerOptions, grpc.HandlerWithHeader(key, value))
+	for _, header := range headers {
+		handlerOptions = append(handlerOptions, grpc.HandlerWithHeader(header[0], header[1]))
 	}
 	if callTimeout != 0 {
 		handlerOptions = append(handlerOptions, grpc.HandlerWithCallTimeout(callTimeout))
-- 
2.43.0


From b7753c17d7b15d12d5f3ef7576c6afbd25edeb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:56 +0000
Subject: [PATCH 33/45] fix: grpc works with files that have no package

---
 internal/grpc/handler.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/grpc/handler.go b/internal/grpc/handler.go
index 5f0dd92..e530f92 100644
--- a/internal/grpc/handler.go
+++ b/internal/grpc/handler.go
@@ -271,15 +271,16 @@ func getServiceInfo(fileDescriptorSets []*descriptor.FileDescriptorSet, path str
 }
 
 func findServiceDescriptorProto(path string, fileDescriptorProto *descriptor.FileDescriptorProto) (*descriptor.ServiceDescriptorProto, error) {
-	if fileDescriptorProto.GetPackage() == "" {
-		return nil, fmt.Errorf("no package on FileDescriptorProto")
+	prefix := ""
+	if fileDescriptorProto.GetPackage() != "" {
+		prefix = fileDescriptorProto.GetPackage() + "."
 	}
-	if !strings.HasPrefix(path, fileDescriptorProto.GetPackage()) {
+	if !strings.HasPrefix(path, prefix) {
 		return nil, nil
 	}
 	var foundServiceDescriptorProto *descriptor.ServiceDescriptorProto
 	for _, serviceDescriptorProto := range fileDescriptorProto.GetService() {
-		if fileDescriptorProto.GetPackage()+"."+serviceDescriptorProto.GetName() == path {
+		if prefix+serviceDescriptorProto.GetName() == path {
 			if foundServiceDescriptorProto != nil {
 				return nil, fmt.Errorf("duplicate services for path %s", path)
 			}
-- 
2.43.0


From 942b7ddbf13a3282824832dfb10051a07b759da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:01 +0000
Subject: [PATCH 34/45] fix: create leaves no part of a file behind when
 writing it fails

---
 internal/create/handler.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/create/handler.go b/internal/create/handler.go
index 16590da..bd05533 100644
--- a/internal/create/handler.go
+++ b/internal/create/handler.go
@@ -191,7 +191,22 @@ func (h *handler) create(filePath string) error {
 			return err
 		}
 	}
-	return ioutil.WriteFile(filePath, data, 0644)
+	return writeFile(filePath, data)
+}
+
+// writeFile writes the file that is known to be empty if it exists,
+// and does not leave a part of it behind if this fails.
+func writeFile(filePath string, data []byte) error {
+	_, statErr := os.Stat(filePath)
+	if err := ioutil.WriteFile(filePath, data, 0644); err != nil {
+		if os.IsNotExist(statErr) {
+			_ = os.Remove(filePath)
+		} else {
+			_ = os.Truncate(filePath, 0)
+		}
+		return err
+	}
+	return nil
 }
 
 func (h *handler) isV2(filePath string) (bool, error) {
-- 
2.43.0


From 10c39bcd7a3809daceeb107ab0e640774a934748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:50 +0000
Subject: [PATCH 35/45] fix: cache delete does not delete the directory of
 PROTOTOOL_CACHE_PATH

---
 internal/protoc/downloader.go | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index a2546c9..c9605a4 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -142,10 +142,14 @@ func (d *downloader) WellKnownTypesIncludePath() (string, error) {
 }
 
 func (d *downloader) Delete() error {
-	basePath, err := d.getBasePathNoVersionOSARCH()
+	// a custom cache path is managed by the user and must not be deleted
+	basePath, err := getDefaultBasePathNoOSARCH()
 	if err != nil {
 		return err
 	}
+	if err := file.CheckAbs(basePath); err != nil {
+		return err
+	}
 	d.cachedBasePath = ""
 	d.logger.Debug("deleting", zap.String("path", basePath))
 	return os.RemoveAll(basePath)
@@ -333,26 +337,6 @@ func (d *downloader) getBasePath() (string, error) {
 	return filepath.Join(basePathNoVersion, d.getBasePathVersionPart()), nil
 }
 
-func (d *downloader) getBasePathNoVersionOSARCH() (string, error) {
-	basePath := d.cachePath
-	var err error
-	if basePath == "" {
-		basePath, err = getDefaultBasePathNoOSARCH()
-		if err != nil {
-			return "", err
-		}
-	} else {
-		basePath, err = file.AbsClean(basePath)
-		if err != nil {
-			return "", err
-		}
-	}
-	if err := file.CheckAbs(basePath); err != nil {
-		return "", err
-	}
-	return basePath, nil
-}
-
 func (d *downloader) getBasePathNoVersion() (string, error) {
 	basePath := d.cachePath
 	var err error
-- 
2.43.0


From 6fcf52facda07c1f3bf79c255e5bf41d477d8fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:52 +0000
Subject: [PATCH 36/45] fix: the files of a downloaded archive cannot be
 written outside the cache

---
 internal/protoc/downloader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index c9605a4..a714884 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -248,6 +248,9 @@ func (d *downloader) downloadInternal(basePath string, goos string, goarch strin
 			return err
 		}
 		writeFilePath := filepath.Join(basePath, file.Name)
+		if !strings.HasPrefix(writeFilePath, filepath.Clean(basePath)+string(filepath.Separator)) {
+			return fmt.Errorf("invalid file name in zip: %q", file.Name)
+		}
 		if err := os.MkdirAll(filepath.Dir(writeFilePath), 0755); err != nil {
 			return err
 		}
-- 
2.43.0


From 3be1e889603bc0a3878a26c88210088a1928ccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:53 +0000
Subject: [PATCH 37/45] fix: an interrupted or failed download leaves no
 partial protoc installation in the cache

---
 internal/protoc/downloader.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index a714884..2eedf04 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -213,8 +213,20 @@ func (d *downloader) checkDownloaded(basePath string) error {
 	return nil
 }
 
-func (d *downloader) download(basePath string) (retErr error) {
-	return d.downloadInternal(basePath, runtime.GOOS, runtime.GOARCH)
+func (d *downloader) download(basePath string) error {
+	// extract everything first so that basePath never has a part of the files only,
+	// what is there from before was either interrupted or is not usable
+	tempPath := basePath + ".tmp"
+	if err := os.RemoveAll(tempPath); err != nil {
+		return err
+	}
+	if err := d.downloadInternal(tempPath, runtime.GOOS, runtime.GOARCH); err != nil {
+		return multierr.Append(err, os.RemoveAll(tempPath))
+	}
+	if err := os.RemoveAll(basePath); err != nil {
+		return err
+	}
+	return os.Rename(tempPath, basePath)
 }
 
 func (d *downloader) downloadInternal(basePath string, goos string, goarch string) (retErr error) {
-- 
2.43.0


From 89202f0557528fd97c289a5cf0f20f9e5b9d9f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:55 +0000
Subject: [PATCH 38/45] fix: a download that fails names the HTTP status

---
 internal/protoc/downloader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index 2eedf04..2067660 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -297,7 +297,11 @@ func (d *downloader) getDownloadData(goos string, goarch string) (_ []byte, retE
 		return ioutil.ReadFile(strings.TrimPrefix(url, "file://"))
 	case strings.HasPrefix(url, "http://"), strings.HasPrefix(url, "https://"):
 		response, err := http.Get(url)
-		if err != nil || response.StatusCode != http.StatusOK {
+		if err == nil && response.StatusCode != http.StatusOK {
+			_ = response.Body.Close()
+			err = fmt.Errorf("%s", response.Status)
+		}
+		if err != nil {
 			// if there is not given protocURL, we tried to
 			// download this from GitHub Releases, so add
 			// extra context to the error message
-- 
2.43.0


From 7ebd512f5f844a25800fedb4870b9bebe5eb99ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:37 +0000
Subject: [PATCH 39/45] fix: an interrupted command stops all protoc processes
 and does not succeed

---
 internal/protoc/compiler.go | 59 ++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index a0345df..8099b99 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -125,6 +125,30 @@ func (c *compiler) Compile(protoSet *file.ProtoSet) (*CompileResult, error) {
 			return nil, err
 		}
 	}
+
+	// Prepare a signal buffer so that we can kill the protoc
+	// processes when Prototool receives a SIGINT or SIGTERM.
+	sigC := make(chan os.Signal, 1)
+	signal.Notify(sigC, syscall.SIGINT, syscall.SIGTERM)
+	defer signal.Stop(sigC)
+	doneC := make(chan struct{})
+	interruptC := make(chan struct{})
+	var interruptErr error
+	go func() {
+		defer close(interruptC)
+		select {
+		case sig := <-sigC:
+			interruptErr = fmt.Errorf("received signal: %s", sig)
+			return
+		case <-doneC:
+		}
+		select {
+		case sig := <-sigC:
+			interruptErr = fmt.Errorf("received signal: %s", sig)
+		default:
+		}
+	}()
+
 	var failures []*text.Failure
 	var errs []error
 	var lock sync.Mutex
@@ -136,7 +160,7 @@ func (c *compiler) Compile(protoSet *file.ProtoSet) (*CompileResult, error) {
 		semaphoreC <- struct{}{}
 		go func() {
 			defer wg.Done()
-			iFailures, iErr := c.runCmdMeta(cmdMeta)
+			iFailures, iErr := c.runCmdMeta(cmdMeta, interruptC)
 			lock.Lock()
 			failures = append(failures, iFailures...)
 			if iErr != nil {
@@ -147,6 +171,12 @@ func (c *compiler) Compile(protoSet *file.ProtoSet) (*CompileResult, error) {
 		}()
 	}
 	wg.Wait()
+	close(doneC)
+	<-interruptC
+	// what was interrupted is not complete
+	if interruptErr != nil {
+		return nil, interruptErr
+	}
 	// errors are not text.Failures, these are actual unhandled
 	// system errors from calling protoc, so we short circuit
 	if len(errs) > 0 {
@@ -241,7 +271,8 @@ func (c *compiler) makeGenDirs(protoSet *file.ProtoSet) error {
 	return nil
 }
 
-func (c *compiler) runCmdMeta(cmdMeta *cmdMeta) ([]*text.Failure, error) {
+// runCmdMeta runs protoc until it is finished or interruptC is closed.
+func (c *compiler) runCmdMeta(cmdMeta *cmdMeta, interruptC <-chan struct{}) ([]*text.Failure, error) {
 	c.logger.Debug("running protoc", zap.String("command", cmdMeta.String()))
 	buffer := bytes.NewBuffer(nil)
 	cmdMeta.execCmd.Stderr = buffer
@@ -250,25 +281,25 @@ func (c *compiler) runCmdMeta(cmdMeta *cmdMeta) ([]*text.Failure, error) {
 	// is a stdout, it will be printed to os.Stdout.
 	cmdMeta.execCmd.Stdout = ioutil.Discard
 
-	// Prepare a signal buffer so that we can kill the protoc
-	// process when Prototool receives a SIGINT or SIGTERM.
-	sig := make(chan os.Signal, 1)
+	select {
+	case <-interruptC:
+		// Do not start any more processes.
+		return nil, nil
+	default:
+	}
+	if err := cmdMeta.execCmd.Start(); err != nil {
+		return nil, err
+	}
 	done := make(chan error, 1)
-	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
-
 	go func() {
-		done <- cmdMeta.execCmd.Run()
+		done <- cmdMeta.execCmd.Wait()
 	}()
 
 	var runErr error
 	select {
-	case s := <-sig:
+	case <-interruptC:
 		// Kill the process, and terminate early.
-		c.logger.Debug(
-			"terminating protoc",
-			zap.String("command", cmdMeta.String()),
-			zap.String("signal", s.String()),
-		)
+		c.logger.Debug("terminating protoc", zap.String("command", cmdMeta.String()))
 		return nil, cmdMeta.execCmd.Process.Kill()
 	case runErr = <-done:
 		// Exit errors are ok, we can probably parse them into text.Failures
-- 
2.43.0


From 1f1f6bc1a67608edcd90b78bcb8c19683234a419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:45 +0000
Subject: [PATCH 40/45] fix: format -w does not lose a file that it cannot
 write completely

---
 internal/exec/runner.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 0aa0131..0881108 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -544,7 +544,12 @@ func (r *runner) formatFile(overwrite bool, diffMode bool, lintMode bool, fix in
 	if !bytes.Equal(input, data) {
 		if overwrite {
 			// 0 exit code in overwrite case
-			return true, ioutil.WriteFile(protoFile.Path, data, os.ModePerm)
+			err := ioutil.WriteFile(protoFile.Path, data, os.ModePerm)
+			if err != nil {
+				// do not lose the input if only a part of data could be written
+				_ = ioutil.WriteFile(protoFile.Path, input, os.ModePerm)
+			}
+			return true, err
 		}
 		if lintMode {
 			return false, r.printFailures("", meta, text.NewFailuref(scanner.Position{
-- 
2.43.0


From 957c3094183a43bfd6ee9edb2e5c1686f0972171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:45 +0000
Subject: [PATCH 41/45] fix: temporary files of descriptor sets are closed

---
 internal/protoc/compiler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 8099b99..ecc280d 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -970,6 +970,10 @@ func getTempFilePath() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if err := tempFile.Close(); err != nil {
+		tryRemoveTempFile(tempFile.Name())
+		return "", err
+	}
 	return tempFile.Name(), nil
 }
 
-- 
2.43.0


From cf64c52680ef077b2c50c56d2b1a04f41d4179f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:45 +0000
Subject: [PATCH 42/45] fix: descriptor-set --tmp leaves no file behind when it
 fails

---
 internal/exec/runner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 0881108..8100559 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -738,6 +738,9 @@ func (r *runner) DescriptorSet(args []string, includeImports bool, includeSource
 	}
 	defer func() {
 		retErr = multierr.Append(retErr, file.Close())
+		if tmp && retErr != nil {
+			_ = os.Remove(file.Name())
+		}
 	}()
 	if _, err := file.Write(data); err != nil {
 		return err
-- 
2.43.0


From dedb8a95dd13ae7c6d17975d309a493538d3e07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:45 +0000
Subject: [PATCH 43/45] fix: config init leaves no part of a configuration file
 behind when writing it fails

---
 internal/exec/runner.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 8100559..8f1e2b5 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -189,7 +189,12 @@ func (r *runner) Init(args []string, uncomment bool, document bool) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(filePath, data, 0644)
+	if err := ioutil.WriteFile(filePath, data, 0644); err != nil {
+		// the file did not exist, do not leave a part of it
+		_ = os.Remove(filePath)
+		return err
+	}
+	return nil
 }
 
 func (r *runner) Create(args []string, pkg string) error {
-- 
2.43.0


From bd485bfdc7e44349abde85070b2dfdb8cf8c6c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:24 +0000
Subject: [PATCH 44/45] fix: lint does not crash on an option named
 google.api.http outside of an rpc

---
 internal/lint/check_rpc_options_no_google_api_http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/lint/check_rpc_options_no_google_api_http.go b/internal/lint/check_rpc_options_no_google_api_http.go
index c5d7b81..4bce476 100644
--- a/internal/lint/check_rpc_options_no_google_api_http.go
+++ b/internal/lint/check_rpc_options_no_google_api_http.go
@@ -67,7 +67,7 @@ func (v *rpcOptionsNoGoogleAPIHTTPVisitor) VisitRPC(rpc *proto.RPC) {
 }
 
 func (v *rpcOptionsNoGoogleAPIHTTPVisitor) VisitOption(option *proto.Option) {
-	if v.rpc != nil && strings.HasPrefix(option.Name, "(google.api.http)") || strings.HasPrefix(option.Name, "(.google.api.http)") {
+	if v.rpc != nil && (strings.HasPrefix(option.Name, "(google.api.http)") || strings.HasPrefix(option.Name, "(.google.api.http)")) {
 		v.AddFailuref(v.rpc.Comment, option.Position, `Option "google.api.http" is not allowed. This option signifies HTTP/REST usage, use the RPC framework instead.`)
 	}
 }
-- 
2.43.0


From 19995a6707dd7b6e27ee49bd3949977810ae41cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:27 +0000
Subject: [PATCH 45/45] fix: format keeps slashes at the beginning of lines of
 C-style comments

---
 internal/format/base_visitor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index 29f1bc9..a120b85 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -202,6 +202,10 @@ func (v *baseVisitor) PEnumField(element *proto.EnumField) {
 }
 
 func cleanCommentLine(line string) string {
-	// TODO: this is not great
-	return strings.TrimLeft(line, "/")
+	// the parser removes all slashes of a C++-style comment, so these
+	// are the first characters of a line within a C-style comment
+	if strings.HasPrefix(line, "/") {
+		return " " + line
+	}
+	return line
 }
-- 
2.43.0

