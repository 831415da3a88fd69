From 1421321bd5a17066fe6a9513e910e9bdadcc37ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 01/50] fix: ADD COLUMN emits NOT NULL for not-null columns
 instead of nullable ones

---
 src/snapshot/changes/column/add_column_change.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/snapshot/changes/column/add_column_change.rs b/src/snapshot/changes/column/add_column_change.rs
index bb62237..1fc3800 100644
--- a/src/snapshot/changes/column/add_column_change.rs
+++ b/src/snapshot/changes/column/add_column_change.rs
@@ -49,7 +49,7 @@ impl AddColumnChange {
             sql_qn(&self.column),
             self.data_type,
         )];
-        if !self.not_null {
+        if self.not_null {
             tokens.push("NOT NULL".to_string());
         }
         if let Some(default) = &self.default {
-- 
2.43.0


From 0476b21e7152fa3b06f795778c41155c4c2da759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 02/50] fix: CREATE TABLE declares not-null columns NOT NULL

---
 src/snapshot/changes/table/create_table_change.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/snapshot/changes/table/create_table_change.rs b/src/snapshot/changes/table/create_table_change.rs
index a16fcf7..014bbd2 100644
--- a/src/snapshot/changes/table/create_table_change.rs
+++ b/src/snapshot/changes/table/create_table_change.rs
@@ -68,8 +68,8 @@ impl CreateTableChange {
             sql_qa(&self.schema, &self.table),
             sql_l(self.columns.iter().map(|c| {
                 let mut tokens = vec![sql_qn(&c.name), c.data_type.clone()];
-                if !c.not_null {
-                    tokens.push("NULL".to_string());
+                if c.not_null {
+                    tokens.push("NOT NULL".to_string());
                 }
                 if let Some(default) = &c.default {
                     tokens.push(format!("DEFAULT {}", default));
-- 
2.43.0


From 911490aa8559dcc897334db28859a899494de639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 03/50] fix: ADD FOREIGN KEY renders MATCH, ON UPDATE, ON
 DELETE and deferrability as valid SQL

---
 .../changes/foreignkey/add_foreign_key_change.rs     | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/changes/foreignkey/add_foreign_key_change.rs b/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
index 940c8ac..db5f5ae 100644
--- a/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
+++ b/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
@@ -64,7 +64,7 @@ impl AddForeignKeyChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ADD CONSTRAINT {} FOREIGN KEY ({}) REFERENCES {} ({}) {} {} {}",
+            "ALTER TABLE {} ADD CONSTRAINT {} FOREIGN KEY ({}) REFERENCES {} ({}) MATCH {} ON UPDATE {} ON DELETE {} {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             sql_ql(&self.columns),
@@ -73,6 +73,16 @@ impl AddForeignKeyChange {
             self.match_option,
             self.update_rule,
             self.delete_rule,
+            if self.deferrable {
+                "DEFERRABLE"
+            } else {
+                "NOT DEFERRABLE"
+            },
+            if self.initially_deferred {
+                "INITIALLY DEFERRED"
+            } else {
+                "INITIALLY IMMEDIATE"
+            },
         ) + ";"
     }
 
-- 
2.43.0


From 953e6e570b3b4a28566110408baee16f89947432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 04/50] fix: ALTER CONSTRAINT on a foreign key honours
 initially deferred

---
 .../changes/foreignkey/alter_foreign_key_change.rs    | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs b/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
index 90f56e3..e73b8ce 100644
--- a/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
+++ b/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
@@ -38,13 +38,18 @@ impl AlterForeignKeyChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ALTER CONSTRAINT {} {}",
+            "ALTER TABLE {} ALTER CONSTRAINT {} {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             if self.deferrable {
-                "DEFERRABLE INITIALLY DEFERRED"
+                "DEFERRABLE"
             } else {
-                "NOT DEFERRABLE INITIALLY IMMEDIATE"
+                "NOT DEFERRABLE"
+            },
+            if self.initially_deferred {
+                "INITIALLY DEFERRED"
+            } else {
+                "INITIALLY IMMEDIATE"
             },
         )
     }
-- 
2.43.0


From d5f93678383c2c84a8d8e65b8aed50924921af30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 05/50] fix: ADD CHECK puts the expression in the parentheses
 SQL requires

---
 src/snapshot/changes/check/add_check_change.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/snapshot/changes/check/add_check_change.rs b/src/snapshot/changes/check/add_check_change.rs
index 2d7338f..19514bd 100644
--- a/src/snapshot/changes/check/add_check_change.rs
+++ b/src/snapshot/changes/check/add_check_change.rs
@@ -46,7 +46,7 @@ impl AddCheckChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ADD CONSTRAINT {} CHECK {} {} {}",
+            "ALTER TABLE {} ADD CONSTRAINT {} CHECK ({}) {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             self.expression,
-- 
2.43.0


From 363e9352b15290310d438a405234dc75eb9eaa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 06/50] fix: index diff notices changes of table, uniqueness
 and method

---
 src/snapshot/diff.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 56a32fe..029639c 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -448,7 +448,11 @@ fn diff_index_create(t: &Index) -> Changeset {
 fn diff_index_update(s: &Index, t: &Index) -> Changeset {
     let mut changes = Changeset::new();
 
-    if s.key_expressions != t.key_expressions {
+    if s.table_name != t.table_name
+        || s.unique != t.unique
+        || s.method != t.method
+        || s.key_expressions != t.key_expressions
+    {
         changes.push(DropIndexChange::new(s));
         changes.push(CreateIndexChange::new(t));
     }
-- 
2.43.0


From 78b41ba2c7e70cdcb152c93e22ff463a7ce80bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 07/50] fix: accept the increment and using attributes in
 definition files

---
 src/definition/base/yaml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index a2cd5e1..3f12c6d 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -5,7 +5,7 @@ use super::{
     error::Error,
 };
 
-static KEYWORDS: [&str; 33] = [
+static KEYWORDS: [&str; 35] = [
     "foreign key",
     "initially deferred",
     "not null",
@@ -23,6 +23,7 @@ static KEYWORDS: [&str; 33] = [
     "deferrable",
     "function",
     "volatility",
+    "increment",
     "index",
     "language",
     "match",
@@ -38,6 +39,7 @@ static KEYWORDS: [&str; 33] = [
     "table",
     "type",
     "unique",
+    "using",
     "view",
 ];
 
-- 
2.43.0


From 0ce5afe70cae2ed92310d43e7b1972e0d4fb3c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 08/50] fix: constraint attributes may come before the
 constraint type

---
 src/definition/ddl/constraint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/definition/ddl/constraint.rs b/src/definition/ddl/constraint.rs
index d1a4560..172b953 100644
--- a/src/definition/ddl/constraint.rs
+++ b/src/definition/ddl/constraint.rs
@@ -42,10 +42,10 @@ pub fn parse_constraint_definition(
                 let def = parse_check_constraint_definition(schema_name, table_name, n)?;
                 return Ok(Constraint::Check(def));
             }
-            _ => unreachable!(),
+            _ => continue,
         }
     }
-    unreachable!()
+    Err(Error::new_attribute_required(n, "constraint type"))
 }
 
 pub fn render_constraint_definition(ctx: &Context, c: &Constraint) -> Node {
-- 
2.43.0


From 57ed55299ab3ebed07ad57db260e1b48fd22278d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 09/50] fix: report errors found in an index definition

---
 src/definition/ddl/index.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/definition/ddl/index.rs b/src/definition/ddl/index.rs
index 198cbc9..1e4f901 100644
--- a/src/definition/ddl/index.rs
+++ b/src/definition/ddl/index.rs
@@ -49,6 +49,10 @@ pub fn parse_index_definition(ctx: &Context, n: &Node) -> Result<Index, Error> {
         errors.push(Error::new_attribute_required(n, "on"));
     }
 
+    if !errors.is_empty() {
+        return Err(Error::new_has_errors(n, errors));
+    }
+
     Ok(Index {
         schema_name: ctx.schema_name.clone(),
         table_name: table_name.unwrap(),
-- 
2.43.0


From a28a8169fff163057a31f83c416791f3ba7189b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 10/50] fix: definition keys that merely begin with a keyword
 are unknown keys

---
 src/definition/base/yaml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index 3f12c6d..3242a94 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -78,7 +78,9 @@ fn create_node_from_mapping_key(key: &str) -> Result<Node, Error> {
 
     let mut found = false;
     for keyword in KEYWORDS.iter() {
-        if key.to_lowercase().starts_with(keyword) {
+        let lowercase_key = key.to_lowercase();
+        let rest = lowercase_key.strip_prefix(keyword);
+        if rest.is_some_and(|r| r.is_empty() || r.starts_with(char::is_whitespace)) {
             node.r#type = keyword;
             found = true;
             break;
-- 
2.43.0


From 8c93b3f89640684e4260d95bf9812844744d7f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:17 +0000
Subject: [PATCH 11/50] fix: snapshot errors are printed instead of panicking

---
 src/snapshot/error.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/error.rs b/src/snapshot/error.rs
index 5f30cbd..a500687 100644
--- a/src/snapshot/error.rs
+++ b/src/snapshot/error.rs
@@ -104,7 +104,25 @@ impl SnapshotError {
 
 impl std::fmt::Display for SnapshotError {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-        panic!("unimplemented")
+        match self {
+            Self::ObjectNotFound { path, r#type } => {
+                write!(f, "{} \"{}\" not found", r#type, path.join("."))
+            }
+            Self::ObjectAlreadyExists { path, r#type } => {
+                write!(f, "{} \"{}\" already exists", r#type, path.join("."))
+            }
+            Self::ObjectHasUnexpectedType {
+                path,
+                expected,
+                actual,
+            } => write!(
+                f,
+                "\"{}\" is a {}, expected a {}",
+                path.join("."),
+                actual,
+                expected
+            ),
+        }
     }
 }
 
-- 
2.43.0


From 7ef4e6c1ad7e951e6621e65af431b5c621611de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:17 +0000
Subject: [PATCH 12/50] fix: column defaults may span lines

---
 src/definition/ddl/column.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definition/ddl/column.rs b/src/definition/ddl/column.rs
index 4253a37..ad2c5c5 100644
--- a/src/definition/ddl/column.rs
+++ b/src/definition/ddl/column.rs
@@ -33,7 +33,7 @@ pub fn render_column_definition(ctx: &Context, def: &Column) -> Node {
 }
 
 fn parse_column_expression(input: &str) -> Result<(String, bool, Option<String>), Error> {
-    let re = Regex::new(r"^(?P<type>[^=!]+)(?P<notnull>!)?(?:\s*=\s*(?P<default>.+))?$").unwrap();
+    let re = Regex::new(r"^(?P<type>[^=!]+)(?P<notnull>!)?(?:\s*=\s*(?P<default>(?s:.+)))?$").unwrap();
     if let Some(caps) = re.captures(input) {
         let data_type = caps.name("type").unwrap().as_str().trim().to_string();
         let not_null = caps.name("notnull").is_some();
-- 
2.43.0


From 686b9f5ef000bedb8ea1b7cb1b9d1f91ba539f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:17 +0000
Subject: [PATCH 13/50] fix: exit with a non-zero status when a command fails

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index b97e8f7..aa8d24f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -87,6 +87,7 @@ fn main() {
     };
     if let Err(e) = res {
         eprintln!("{}", e);
+        std::process::exit(1);
     }
 }
 
-- 
2.43.0


From da13cb1e97f4934c78cba3767b156e0b47ac97c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:17 +0000
Subject: [PATCH 14/50] fix: clone accepts the profile argument it reads

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index aa8d24f..28d9dce 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -58,6 +58,7 @@ fn main() {
         .subcommand(
           Command::new("clone")
           .about("inspects the database and creates snapshot and the initial migration")
+          .arg(clap::arg!(--"profile" <String>).default_value("database"))
         )
         .subcommand(
           Command::new("print")
-- 
2.43.0


From b2b866a3af7e2dad1d6225ab95b9860fa7c548d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 15/50] fix: init does not replace a project configuration it
 cannot read

---
 src/cmd/init.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cmd/init.rs b/src/cmd/init.rs
index 640bb2f..534609b 100644
--- a/src/cmd/init.rs
+++ b/src/cmd/init.rs
@@ -1,15 +1,19 @@
 use crate::definition;
 use crate::error::AnyError;
 use crate::history::{FSHistory, Version};
-use crate::project::{discover_project, initialize_project};
+use crate::project::{discover_project, initialize_project, ProjectError};
 use crate::snapshot::Database;
 
 pub fn init() -> Result<(), AnyError> {
     let cwd = std::env::current_dir()?;
 
-    if let Ok(proj) = discover_project(cwd.clone()) {
-        println!("Project already exists at: {}", proj.base_dir.display());
-        return Ok(());
+    match discover_project(cwd.clone()) {
+        Ok(proj) => {
+            println!("Project already exists at: {}", proj.base_dir.display());
+            return Ok(());
+        }
+        Err(ProjectError::ProjectNotFound { .. }) => {}
+        Err(e) => return Err(e.into()),
     }
 
     let project = initialize_project(cwd)?;
-- 
2.43.0


From 823f2d6b4e87da55cd47add0fb4d28f91b78b038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 16/50] fix: init keeps history and definition files that
 already exist

---
 src/cmd/init.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cmd/init.rs b/src/cmd/init.rs
index 534609b..c1a819c 100644
--- a/src/cmd/init.rs
+++ b/src/cmd/init.rs
@@ -36,10 +36,16 @@ pub fn init() -> Result<(), AnyError> {
     }
 
     let mut fsh = FSHistory::new(history_dir.clone());
-    fsh.save_version(init)?;
-    fsh.save_version(stage)?;
+    for version in [init, stage] {
+        if !history_dir.join(format!("{}.yaml", version.name)).exists() {
+            fsh.save_version(version)?;
+        }
+    }
 
-    definition::save_snapshot(&definition_dir.join("public.yaml"), &snapshot)?;
+    let definition_file = definition_dir.join("public.yaml");
+    if !definition_file.exists() {
+        definition::save_snapshot(&definition_file, &snapshot)?;
+    }
 
     Ok(())
 }
-- 
2.43.0


From 24c9c56add87fadcc2a67823d7d71d4f5023ee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 17/50] fix: up, status and clone use the directories of the
 selected profile

---
 src/cmd/clone.rs  | 2 +-
 src/cmd/status.rs | 4 ++--
 src/cmd/up.rs     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cmd/clone.rs b/src/cmd/clone.rs
index 143d505..3c780cb 100644
--- a/src/cmd/clone.rs
+++ b/src/cmd/clone.rs
@@ -8,7 +8,7 @@ pub fn clone(profile_name: &str) -> Result<(), AnyError> {
     let cwd: std::path::PathBuf = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
     let database_url = project.resolve_database_url(profile_name)?;
-    let definition_dir = project.resolve_default_definitions_dir()?;
+    let definition_dir = project.resolve_definitions_dir(profile_name)?;
 
     let mut pg_client = Client::connect(&database_url, NoTls)?;
     let mut tx = pg_client.transaction()?;
diff --git a/src/cmd/status.rs b/src/cmd/status.rs
index 46b53b0..ec1197a 100644
--- a/src/cmd/status.rs
+++ b/src/cmd/status.rs
@@ -15,8 +15,8 @@ use postgres::{Client, NoTls};
 pub fn status(profile_name: &str) -> Result<(), AnyError> {
     let cwd = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
-    let history_dir = project.resolve_default_history_dir()?;
-    let definition_dir = project.resolve_default_definitions_dir()?;
+    let history_dir = project.resolve_history_dir(profile_name)?;
+    let definition_dir = project.resolve_definitions_dir(profile_name)?;
     let database_url = project.resolve_database_url(profile_name)?;
 
     let fsh = FSHistory::from_dir(&history_dir)?;
diff --git a/src/cmd/up.rs b/src/cmd/up.rs
index 4bc8edf..d187d41 100644
--- a/src/cmd/up.rs
+++ b/src/cmd/up.rs
@@ -9,7 +9,7 @@ use postgres::{Client, NoTls};
 pub fn up(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
     let cwd: std::path::PathBuf = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
-    let history_dir = project.resolve_default_history_dir()?;
+    let history_dir = project.resolve_history_dir(profile_name)?;
     let database_url = project.resolve_database_url(profile_name)?;
     let metadata_schema = project.resolve_metadata_schema(&profile_name)?;
 
-- 
2.43.0


From 50b8365cdbabf5e65653f6c7e51520ec98b1a165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 18/50] fix: version names may themselves end in .yaml

---
 src/history/fsh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 4463aa7..ca6e3aa 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -38,7 +38,7 @@ impl FSHistory {
             if filetype.is_dir() || !filename.ends_with(".yaml") {
                 continue;
             }
-            let version_name = filename.trim_end_matches(".yaml").to_owned();
+            let version_name = filename.strip_suffix(".yaml").unwrap().to_owned();
 
             let v = history.get_version(&version_name)?;
 
-- 
2.43.0


From 406c0a98f4cedac838152f62de130cf91a19d072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 19/50] fix: version files are replaced atomically

---
 src/history/fsh.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index ca6e3aa..9096b26 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -101,8 +101,11 @@ impl FSHistory {
     pub fn save_version(&mut self, version: Version) -> Result<(), FSHistoryError> {
         // TODO: 인 메모리 변경 안해도 되나?...
         let version_file_path = self.get_version_file_path(&version.name);
-        let version_file = File::create(version_file_path)?;
-        serde_yaml::to_writer(version_file, &version)?;
+        let temp_file_path = self.dir.join(format!(".{}.yaml.tmp", version.name));
+        let temp_file = File::create(&temp_file_path)?;
+        serde_yaml::to_writer(&temp_file, &version)?;
+        temp_file.sync_all()?;
+        std::fs::rename(temp_file_path, version_file_path)?;
 
         Ok(())
     }
-- 
2.43.0


From 0676ad51725a1804cad09486157cba4e5fdb85d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 20/50] fix: refuse histories that are broken or run in a
 circle

---
 src/history/fsh.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 9096b26..0a301f4 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -5,7 +5,10 @@ use std::{
     path::PathBuf,
 };
 
-use super::{version::INIT, Version};
+use super::{
+    version::{INIT, STAGE},
+    Version,
+};
 
 pub struct FSHistory {
     pub dir: PathBuf,
@@ -55,9 +58,17 @@ impl FSHistory {
         }
 
         let mut curr_version = "init".to_string();
-        while let Some(next) = history.next_map.get(&curr_version) {
-            history.current_version = curr_version.clone();
-            curr_version = next.clone();
+        for _ in 0..history.next_map.len() {
+            if let Some(next) = history.next_map.get(&curr_version) {
+                history.current_version = curr_version.clone();
+                curr_version = next.clone();
+            }
+        }
+        if curr_version != STAGE {
+            return Err(FSHistoryError::Unreachable {
+                high: STAGE.to_owned(),
+                low: INIT.to_owned(),
+            });
         }
 
         Ok(history)
@@ -84,6 +95,11 @@ impl FSHistory {
 
             if curr == from {
                 break;
+            } else if versions.contains(&v.name) {
+                return Err(FSHistoryError::Unreachable {
+                    high: to.to_owned(),
+                    low: from.to_owned(),
+                });
             } else if let Some(previous) = v.previous.as_ref() {
                 curr = previous.clone();
                 versions.push(v.name);
-- 
2.43.0


From b6e307ae191e526086015379cc3a0c1d04144491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 21/50] fix: make never reuses the name of an existing version

---
 src/cmd/make.rs    | 8 +++++++-
 src/history/fsh.rs | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cmd/make.rs b/src/cmd/make.rs
index e6f9502..872d6ff 100644
--- a/src/cmd/make.rs
+++ b/src/cmd/make.rs
@@ -18,11 +18,17 @@ pub fn make(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
         println!("Nothing to make. Stage is empty.");
         return Ok(());
     }
-    to_make.name = format!(
+    let base_name = format!(
         "{}-{}",
         chrono::Local::now().format("%Y%m%d_%H%M%S"),
         version.unwrap_or("auto"),
     );
+    to_make.name = base_name.clone();
+    let mut suffix = 2;
+    while fsh.has_version(&to_make.name) {
+        to_make.name = format!("{}-{}", base_name, suffix);
+        suffix += 1;
+    }
     let new_stage = Version::new_stage(&to_make.name);
 
     println!("Made version: {}", &to_make.name.green());
diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 0a301f4..0b93f91 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -78,6 +78,10 @@ impl FSHistory {
         self.get_version(&self.current_version)
     }
 
+    pub fn has_version(&self, version_name: &str) -> bool {
+        self.get_version_file_path(version_name).exists()
+    }
+
     pub fn get_version(&self, version_name: &str) -> Result<Version, FSHistoryError> {
         let version_file_path = self.get_version_file_path(version_name);
         let version_file = File::open(version_file_path)?;
-- 
2.43.0


From a090b0f33362fb86d0b4e2e6873eba815637ad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 22/50] fix: a history interrupted between the two writes of
 make still loads

---
 src/history/fsh.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 0b93f91..faab6f6 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -14,6 +14,8 @@ pub struct FSHistory {
     pub dir: PathBuf,
     pub next_map: HashMap<String, String>,
     pub current_version: String,
+    /// version made from the stage by a make that did not get to empty the stage
+    interrupted_make: Option<String>,
 }
 
 impl FSHistory {
@@ -22,6 +24,7 @@ impl FSHistory {
             dir,
             next_map: HashMap::new(),
             current_version: INIT.to_owned(),
+            interrupted_make: None,
         }
     }
 
@@ -30,6 +33,7 @@ impl FSHistory {
             dir: dir.clone(),
             next_map: HashMap::new(),
             current_version: INIT.to_owned(),
+            interrupted_make: None,
         };
 
         let dir_entries = std::fs::read_dir(&dir)?;
@@ -47,6 +51,12 @@ impl FSHistory {
 
             if let Some(previous) = v.previous {
                 if let Some(existing) = history.next_map.get(&previous) {
+                    if let Some(made) = history.find_interrupted_make(existing, &v.name)? {
+                        history.next_map.insert(previous, made.clone());
+                        history.next_map.insert(made.clone(), STAGE.to_owned());
+                        history.interrupted_make = Some(made);
+                        continue;
+                    }
                     return Err(FSHistoryError::Branched {
                         parent: previous.clone(),
                         child_a: existing.clone(),
@@ -78,11 +88,29 @@ impl FSHistory {
         self.get_version(&self.current_version)
     }
 
+    /// A make that was killed after saving the new version and before emptying
+    /// the stage leaves the two side by side with the same contents.
+    fn find_interrupted_make(&self, a: &str, b: &str) -> Result<Option<String>, FSHistoryError> {
+        let made = match (a, b) {
+            (STAGE, made) | (made, STAGE) => self.get_version(made)?,
+            _ => return Ok(None),
+        };
+        let stage = self.get_version(STAGE)?;
+        let same = made.changes == stage.changes && made.up == stage.up && made.down == stage.down;
+        if same && !made.is_empty() && !self.next_map.contains_key(&made.name) {
+            return Ok(Some(made.name));
+        }
+        Ok(None)
+    }
+
     pub fn has_version(&self, version_name: &str) -> bool {
         self.get_version_file_path(version_name).exists()
     }
 
     pub fn get_version(&self, version_name: &str) -> Result<Version, FSHistoryError> {
+        if let (STAGE, Some(made)) = (version_name, &self.interrupted_make) {
+            return Ok(Version::new_stage(made));
+        }
         let version_file_path = self.get_version_file_path(version_name);
         let version_file = File::open(version_file_path)?;
         let version: Version = serde_yaml::from_reader(version_file)?;
-- 
2.43.0


From 04bdaa6c9edaf99aecf92254832a33a18e0ed3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 23/50] fix: down fails when another session already reverted
 the version

---
 src/history/dbh.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/history/dbh.rs b/src/history/dbh.rs
index 10efbd8..3032ea1 100644
--- a/src/history/dbh.rs
+++ b/src/history/dbh.rs
@@ -42,10 +42,13 @@ impl DBHistory {
         tx: &mut Transaction,
         version: &Version,
     ) -> Result<(), DBHistoryError> {
-        tx.execute(
+        let deleted = tx.execute(
             &format_delete_version_sql(&self.metadata_schema),
             &[&version.name],
         )?;
+        if deleted != 1 {
+            return Err(DBHistoryError::NoMatchingVersion(version.name.clone()));
+        }
         Ok(())
     }
 
-- 
2.43.0


From a0ada0fe6c0148a3f4660e4b696bd9d045dcd3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 24/50] fix: double quotes inside identifiers are escaped

---
 src/util/sqlfmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/sqlfmt.rs b/src/util/sqlfmt.rs
index eae728d..7173458 100644
--- a/src/util/sqlfmt.rs
+++ b/src/util/sqlfmt.rs
@@ -1,6 +1,6 @@
 // quoted name
 pub fn sql_qn(schema: &str) -> String {
-    format!("\"{}\"", schema)
+    format!("\"{}\"", schema.replace('"', "\"\""))
 }
 
 // quoted accessor
-- 
2.43.0


From d8ea57f545040a8453b8f69675c8be7495ff2e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:01 +0000
Subject: [PATCH 25/50] fix: schema names are quoted in CREATE SCHEMA and DROP
 SCHEMA

---
 src/snapshot/changes/schema/create_schema_change.rs | 3 ++-
 src/snapshot/changes/schema/drop_schema_change.rs   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/snapshot/changes/schema/create_schema_change.rs b/src/snapshot/changes/schema/create_schema_change.rs
index 0d6a1dd..8d0b6ba 100644
--- a/src/snapshot/changes/schema/create_schema_change.rs
+++ b/src/snapshot/changes/schema/create_schema_change.rs
@@ -1,5 +1,6 @@
 use super::DropSchemaChange;
 use crate::snapshot::{changes::Change, Database, Schema, SnapshotError};
+use crate::util::sqlfmt::sql_qn;
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -20,7 +21,7 @@ impl CreateSchemaChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("CREATE SCHEMA {};", self.schema_name)
+        format!("CREATE SCHEMA {};", sql_qn(&self.schema_name))
     }
 
     pub fn revert(&self, source: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/snapshot/changes/schema/drop_schema_change.rs b/src/snapshot/changes/schema/drop_schema_change.rs
index 5bc92e8..8650e99 100644
--- a/src/snapshot/changes/schema/drop_schema_change.rs
+++ b/src/snapshot/changes/schema/drop_schema_change.rs
@@ -1,5 +1,6 @@
 use super::CreateSchemaChange;
 use crate::snapshot::{changes::Change, Database, Schema, SnapshotError};
+use crate::util::sqlfmt::sql_qn;
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -20,7 +21,7 @@ impl DropSchemaChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("DROP SCHEMA {};", self.schema_name)
+        format!("DROP SCHEMA {};", sql_qn(&self.schema_name))
     }
 
     pub fn revert(&self, source: &Database) -> Result<Change, SnapshotError> {
-- 
2.43.0


From 989fe1bf304be8ce5f9401b4deca73876d9b31fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:01 +0000
Subject: [PATCH 26/50] fix: the metadata schema name is quoted

---
 src/history/dbh.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/history/dbh.rs b/src/history/dbh.rs
index 3032ea1..acf2c5a 100644
--- a/src/history/dbh.rs
+++ b/src/history/dbh.rs
@@ -1,6 +1,6 @@
 use postgres::Transaction;
 
-use crate::snapshot::changes::Change;
+use crate::{snapshot::changes::Change, util::sqlfmt::sql_qn};
 
 use super::Version;
 
@@ -161,7 +161,7 @@ impl DBHistory {
 }
 
 fn format_create_schema_sql(schema: &str) -> String {
-    format!("CREATE SCHEMA {}", schema)
+    format!("CREATE SCHEMA {}", sql_qn(schema))
 }
 fn format_create_table_sql(schema: &str) -> String {
     format!(
@@ -174,45 +174,46 @@ fn format_create_table_sql(schema: &str) -> String {
     applied_at TIMESTAMP NOT NULL DEFAULT now(),
     applied_order SERIAL NOT NULL UNIQUE
 )",
-        schema, schema,
+        sql_qn(schema),
+        sql_qn(schema),
     )
 }
 fn format_insert_version_sql(schema: &str) -> String {
     format!(
         "INSERT INTO {}.version (name, previous, changes, up, down) VALUES ($1, $2, $3::TEXT::JSON, $4, $5)",
-        schema
+        sql_qn(schema)
     )
 }
 
 fn format_current_version_sql(schema: &str) -> String {
     format!(
         "SELECT name, previous, changes::TEXT, up, down, applied_at FROM {}.version ORDER BY applied_order DESC LIMIT 1",
-        schema
+        sql_qn(schema)
     )
 }
 
 fn format_delete_version_sql(schema: &str) -> String {
-    format!("DELETE FROM {}.version WHERE name = $1", schema)
+    format!("DELETE FROM {}.version WHERE name = $1", sql_qn(schema))
 }
 
 fn format_get_downward_range_sql(schema: &str) -> String {
     format!(
         "SELECT name FROM {}.version WHERE $1 >= applied_order AND applied_order > $2 ORDER BY applied_order DESC",
-        schema
+        sql_qn(schema)
     )
 }
 
 fn format_get_applied_order_sql(schema: &str) -> String {
     format!(
         "SELECT applied_order FROM {}.version WHERE name = $1",
-        schema
+        sql_qn(schema)
     )
 }
 
 fn format_get_version_sql(schema: &str) -> String {
     format!(
         "SELECT name, previous, changes::TEXT, up, down FROM {}.version WHERE name = $1",
-        schema
+        sql_qn(schema)
     )
 }
 
-- 
2.43.0


From d5b3d8dc6edd4942c4e486453cfcf519dd131a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:01 +0000
Subject: [PATCH 27/50] fix: functions are created and dropped with valid SQL

---
 .../changes/function/create_functon_change.rs  |  8 ++++----
 .../changes/function/drop_function_change.rs   |  4 ++--
 src/util/sqlfmt.rs                             | 18 ++++++++++++++++++
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/snapshot/changes/function/create_functon_change.rs b/src/snapshot/changes/function/create_functon_change.rs
index d747d14..fda44ae 100644
--- a/src/snapshot/changes/function/create_functon_change.rs
+++ b/src/snapshot/changes/function/create_functon_change.rs
@@ -1,6 +1,6 @@
 use super::{super::Change, DropFunctionChange};
 use crate::snapshot::{Database, Function, SnapshotError};
-use crate::util::sqlfmt::sql_qa;
+use crate::util::sqlfmt::{sql_dq, sql_qf};
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -41,12 +41,12 @@ impl CreateFunctionChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "CREATE FUNCTION {} {} RETURNS {} LANGUAGE {} {}",
-            sql_qa(&self.schema, &self.function),
-            self.body,
+            "CREATE FUNCTION {} RETURNS {} LANGUAGE {} {} AS {}",
+            sql_qf(&self.schema, &self.function),
             self.returns,
             self.language,
             self.volatility,
+            sql_dq(&self.body),
         ) + ";"
     }
 
diff --git a/src/snapshot/changes/function/drop_function_change.rs b/src/snapshot/changes/function/drop_function_change.rs
index a5e2dd9..fcf52bb 100644
--- a/src/snapshot/changes/function/drop_function_change.rs
+++ b/src/snapshot/changes/function/drop_function_change.rs
@@ -1,6 +1,6 @@
 use super::{super::Change, CreateFunctionChange};
 use crate::snapshot::{Database, Function, SnapshotError};
-use crate::util::sqlfmt::sql_qa;
+use crate::util::sqlfmt::sql_qf;
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -25,7 +25,7 @@ impl DropFunctionChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("DROP FUNCTION {}", sql_qa(&self.schema, &self.function),) + ";"
+        format!("DROP FUNCTION {}", sql_qf(&self.schema, &self.function),) + ";"
     }
 
     pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/util/sqlfmt.rs b/src/util/sqlfmt.rs
index 7173458..f229f06 100644
--- a/src/util/sqlfmt.rs
+++ b/src/util/sqlfmt.rs
@@ -8,6 +8,24 @@ pub fn sql_qa(schema: &str, relation: &str) -> String {
     format!("{}.{}", sql_qn(schema), sql_qn(relation))
 }
 
+// quoted function signature; the name may carry its argument list
+pub fn sql_qf(schema: &str, function: &str) -> String {
+    let (name, args) = match function.find('(') {
+        Some(i) => function.split_at(i),
+        None => (function, "()"),
+    };
+    format!("{}{}", sql_qa(schema, name.trim_end()), args)
+}
+
+// dollar quoted string
+pub fn sql_dq(s: &str) -> String {
+    let mut tag = "$$".to_string();
+    while format!("{}$", s).contains(&tag) {
+        tag.insert_str(1, "podo");
+    }
+    format!("{}{}{}", tag, s, tag)
+}
+
 // quoted list
 pub fn sql_ql<I, S>(names: I) -> String
 where
-- 
2.43.0


From 554ed5ef120eaa05eac205ae1b202f832b0ce7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 28/50] fix: changes are ordered by the dependencies between
 objects

---
 src/snapshot/diff.rs | 46 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 029639c..b73473f 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -18,7 +18,51 @@ impl Changeset {
 }
 
 pub fn compare_diff(s: &Database, t: &Database) -> Vec<Change> {
-    return diff_database_update(s, t).changes;
+    let mut changes = diff_database_update(s, t).changes;
+    changes.sort_by_key(|change| get_phase(change, t));
+    return changes;
+}
+
+/// Orders changes by the dependencies between the objects they touch: what
+/// depends on an object is dropped before it and created after it.
+fn get_phase(change: &Change, t: &Database) -> usize {
+    match change {
+        Change::DropViewChange(_) => 0,
+        Change::DropForeignKeyChange(_) => 1,
+        Change::DropIndexChange(_) => 2,
+        Change::DropCheckChange(_)
+        | Change::DropUniqueChange(_)
+        | Change::DropPrimaryKeyChange(_) => 3,
+        Change::DropFunctionChange(_) => 4,
+        Change::DropTableChange(_) => 5,
+        Change::DropColumnChange(_) => 6,
+        // a dropped sequence may still be the default of a column until the
+        // columns are altered, but its name may be needed before that
+        Change::DropSequenceChange(c) => match t.get_schema(&c.schema) {
+            Ok(schema) if schema.has_relation(&c.sequence) => 7,
+            _ => 18,
+        },
+        Change::CreateSchemaChange(_) => 8,
+        Change::CreateSequenceChange(_) => 9,
+        Change::CreateTableChange(_) => 10,
+        Change::AddColumnChange(_) => 11,
+        Change::RenameColumnChange(_)
+        | Change::AlterColumnSetDataTypeChange(_)
+        | Change::AlterColumnSetDefaultChange(_)
+        | Change::AlterColumnSetNotNullChange(_) => 12,
+        Change::CreateFunctionChange(_) => 13,
+        Change::AddCheckChange(_)
+        | Change::AddUniqueChange(_)
+        | Change::AddPrimaryKeyChange(_)
+        | Change::AlterCheckChange(_)
+        | Change::AlterUniqueChange(_)
+        | Change::AlterPrimaryKeyChange(_)
+        | Change::AlterForeignKeyChange(_) => 14,
+        Change::CreateIndexChange(_) => 15,
+        Change::AddForeignKeyChange(_) => 16,
+        Change::CreateViewChange(_) => 17,
+        Change::DropSchemaChange(_) => 19,
+    }
 }
 
 fn diff_database_update(s: &Database, t: &Database) -> Changeset {
-- 
2.43.0


From ea2947a05602ec56972265404ac0516a427ac1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 29/50] fix: reverting a dropped table restores its constraints

---
 src/snapshot/diff.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index b73473f..ce1eeb2 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -244,6 +244,10 @@ fn diff_table_update(s: &Table, t: &Table) -> Changeset {
 fn diff_table_drop(s: &Table) -> Changeset {
     let mut changes = Changeset::new();
 
+    // constraints, which the revert of the table drop would not bring back
+    for si in s.iter_constraints() {
+        changes.append(&mut diff_constraint_drop(si));
+    }
     changes.push(DropTableChange::new(s));
 
     return changes;
-- 
2.43.0


From 1a3e5f6ddeb9a1a73443f0a8546bb9abab75ad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 30/50] fix: clone includes views

---
 src/introspection/mod.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/introspection/mod.rs b/src/introspection/mod.rs
index ad34283..8fb9cc4 100644
--- a/src/introspection/mod.rs
+++ b/src/introspection/mod.rs
@@ -4,7 +4,7 @@ use crate::{
     error::AnyError,
     snapshot::{
         Check, Column, Constraint, Database, ForeignKey, Function, Index, PrimaryKey, Relation,
-        Schema, Sequence, Table, Unique,
+        Schema, Sequence, Table, Unique, View,
     },
 };
 
@@ -33,6 +33,7 @@ pub fn introspect(tx: &mut Transaction, schemas: &[&str]) -> Result<Database, An
     load_unique(tx, &mut database, schemas)?;
     load_checks(tx, &mut database, schemas)?;
     load_indexes(tx, &mut database, schemas)?;
+    load_views(tx, &mut database, schemas)?;
 
     Ok(database)
 }
@@ -244,6 +245,24 @@ fn load_indexes(
     Ok(())
 }
 
+fn load_views(
+    tx: &mut Transaction,
+    database: &mut Database,
+    schemas: &[&str],
+) -> Result<(), AnyError> {
+    for iview in view::introspect_views(tx, schemas)? {
+        let view = View {
+            name: iview.name,
+            schema_name: iview.schema,
+            query: iview.view_definition,
+        };
+        database
+            .get_schema_mut(&view.schema_name)?
+            .add_relation(Relation::View(view))?;
+    }
+    Ok(())
+}
+
 fn load_functions(
     tx: &mut Transaction,
     database: &mut Database,
-- 
2.43.0


From 47380c15f00b7bc38b8f924b6651ae3d4977f57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 31/50] fix: clone records MATCH SIMPLE for foreign keys that
 have it

---
 src/introspection/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/introspection/mod.rs b/src/introspection/mod.rs
index 8fb9cc4..9fc8fd6 100644
--- a/src/introspection/mod.rs
+++ b/src/introspection/mod.rs
@@ -181,7 +181,11 @@ fn load_foreign_keys(
             target_columns: ifk.target_table_columns,
             deferrable: ifk.deferrable,
             initially_deferred: ifk.initially_deferred,
-            match_option: ifk.match_option,
+            // the information schema calls MATCH SIMPLE "NONE"
+            match_option: match ifk.match_option.as_str() {
+                "NONE" => "SIMPLE".to_string(),
+                _ => ifk.match_option,
+            },
             update_rule: ifk.update_rule,
             delete_rule: ifk.delete_rule,
         };
-- 
2.43.0


From be5f382a5d3321bca52c7c1465483c01777b193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 32/50] fix: clone pairs the columns of composite foreign keys
 correctly

---
 src/introspection/foreignkey.sql | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/introspection/foreignkey.sql b/src/introspection/foreignkey.sql
index a304ac2..d83f595 100644
--- a/src/introspection/foreignkey.sql
+++ b/src/introspection/foreignkey.sql
@@ -12,17 +12,8 @@ SELECT
     fc.relname AS target_table_name,
 	(
 		SELECT array_agg(pa.attname)
-		FROM pg_catalog.pg_attribute pa
-		WHERE fc.oid = pa.attrelid
-		AND fc.oid =
-			CASE pkc.contype
-				WHEN 'f' THEN pkc.confrelid
-				ELSE pkc.conrelid
-			END AND (pa.attnum = ANY (
-			CASE pkc.contype
-				WHEN 'f' THEN pkc.confkey
-			ELSE pkc.conkey
-		END)) AND NOT pa.attisdropped 
+		FROM UNNEST(con.confkey) ck(attnum)
+		JOIN pg_catalog.pg_attribute pa ON pa.attrelid = con.confrelid AND pa.attnum = ck.attnum
 	) AS target_columns,
 	con.condeferrable AS constraint_deferrable,
 	con.condeferred AS constraint_deferred,
-- 
2.43.0


From c8993e5423f18f8e90bb9f47f3e518a4f9d3f8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 33/50] fix: clone keeps the sort order of index columns

---
 src/introspection/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/introspection/mod.rs b/src/introspection/mod.rs
index 9fc8fd6..cd3a7f8 100644
--- a/src/introspection/mod.rs
+++ b/src/introspection/mod.rs
@@ -231,7 +231,17 @@ fn load_indexes(
         let key_expressions = if let Some(expressions) = iindex.expressions {
             vec![expressions] //
         } else {
-            iindex.key_columns.unwrap()
+            let key_columns = iindex.key_columns.unwrap();
+            key_columns
+                .into_iter()
+                .zip(iindex.key_options)
+                .map(|(column, option)| match option {
+                    0 => column,
+                    1 => format!("{} DESC NULLS LAST", column),
+                    2 => format!("{} NULLS FIRST", column),
+                    _ => format!("{} DESC", column),
+                })
+                .collect()
         };
 
         let index = Index {
-- 
2.43.0


From 29f3aa13047fe52ddb07ea392e3627ceb42f665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 34/50] fix: clone quotes index columns whose names need it

---
 src/introspection/index.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index 6bb2b10..c7339c6 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -12,7 +12,7 @@ SELECT
     pi.indnatts
         AS key_length,
     (
-        SELECT array_agg(pa.attname) 
+        SELECT array_agg(quote_ident(pa.attname)) 
         FROM unnest(pi.indkey) AS key(i)
             JOIN pg_catalog.pg_attribute pa
                 ON pa.attrelid = pi.indrelid
-- 
2.43.0


From 00e3f76ef9b320203ed3749f5107adfa201e5268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 35/50] fix: clone reads key and index columns in their
 declared order

---
 src/introspection/foreignkey.sql | 8 ++++----
 src/introspection/index.sql      | 4 ++--
 src/introspection/primarykey.sql | 4 ++--
 src/introspection/unique.sql     | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/introspection/foreignkey.sql b/src/introspection/foreignkey.sql
index d83f595..b430bdf 100644
--- a/src/introspection/foreignkey.sql
+++ b/src/introspection/foreignkey.sql
@@ -3,16 +3,16 @@ SELECT
     con.conname AS constraint_name,
     c.relname AS constraint_table_name,
     (
-			SELECT array_agg(pa.attname)
-			FROM UNNEST(con.conkey) ck(attnum)
+			SELECT array_agg(pa.attname ORDER BY ck.ord)
+			FROM UNNEST(con.conkey) WITH ORDINALITY ck(attnum, ord)
 			JOIN pg_catalog.pg_attribute pa ON pa.attrelid = con.conrelid AND pa.attnum = ck.attnum
 		) AS table_columns,
 
     npkc.nspname AS target_schema,
     fc.relname AS target_table_name,
 	(
-		SELECT array_agg(pa.attname)
-		FROM UNNEST(con.confkey) ck(attnum)
+		SELECT array_agg(pa.attname ORDER BY ck.ord)
+		FROM UNNEST(con.confkey) WITH ORDINALITY ck(attnum, ord)
 		JOIN pg_catalog.pg_attribute pa ON pa.attrelid = con.confrelid AND pa.attnum = ck.attnum
 	) AS target_columns,
 	con.condeferrable AS constraint_deferrable,
diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index c7339c6..0c10d9f 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -12,8 +12,8 @@ SELECT
     pi.indnatts
         AS key_length,
     (
-        SELECT array_agg(quote_ident(pa.attname)) 
-        FROM unnest(pi.indkey) AS key(i)
+        SELECT array_agg(quote_ident(pa.attname) ORDER BY key.ord) 
+        FROM unnest(pi.indkey) WITH ORDINALITY AS key(i, ord)
             JOIN pg_catalog.pg_attribute pa
                 ON pa.attrelid = pi.indrelid
                     AND pa.attnum = i 
diff --git a/src/introspection/primarykey.sql b/src/introspection/primarykey.sql
index fe4e228..f370f0b 100644
--- a/src/introspection/primarykey.sql
+++ b/src/introspection/primarykey.sql
@@ -4,8 +4,8 @@ SELECT
     nr.nspname AS table_schema,
     r.relname AS table_name,
     (
-        SELECT array_agg(pa.attname)
-        FROM UNNEST(c.conkey) ck(attnum)
+        SELECT array_agg(pa.attname ORDER BY ck.ord)
+        FROM UNNEST(c.conkey) WITH ORDINALITY ck(attnum, ord)
         JOIN pg_catalog.pg_attribute pa ON pa.attrelid = c.conrelid AND pa.attnum = ck.attnum
     ) AS table_columns,
     c.condeferrable
diff --git a/src/introspection/unique.sql b/src/introspection/unique.sql
index afa267a..7b12ffa 100644
--- a/src/introspection/unique.sql
+++ b/src/introspection/unique.sql
@@ -4,8 +4,8 @@ SELECT
     nr.nspname AS table_schema,
     r.relname AS table_name,
     (
-        SELECT array_agg(pa.attname)
-        FROM UNNEST(c.conkey) ck(attnum)
+        SELECT array_agg(pa.attname ORDER BY ck.ord)
+        FROM UNNEST(c.conkey) WITH ORDINALITY ck(attnum, ord)
         JOIN pg_catalog.pg_attribute pa ON pa.attrelid = c.conrelid AND pa.attnum = ck.attnum
     ) AS table_columns,
     c.condeferrable
-- 
2.43.0


From 848d665e7554904d7b1ed730c74f9619956f980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 36/50] fix: clone keeps unique indexes that foreign keys refer
 to

---
 src/introspection/foreignkey.sql | 2 +-
 src/introspection/index.sql      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/introspection/foreignkey.sql b/src/introspection/foreignkey.sql
index b430bdf..16bb083 100644
--- a/src/introspection/foreignkey.sql
+++ b/src/introspection/foreignkey.sql
@@ -46,6 +46,6 @@ FROM pg_namespace ncon
     LEFT JOIN pg_depend d2 ON d2.refclassid = 'pg_constraint'::regclass::oid AND d2.classid = 'pg_class'::regclass::oid AND d2.objid = d1.refobjid AND d2.objsubid = 0 AND d2.deptype = 'i'::"char"
     LEFT JOIN pg_class fc ON con.confrelid = fc.oid
     LEFT JOIN pg_constraint pkc ON pkc.oid = d2.refobjid AND (pkc.contype = ANY (ARRAY['p'::"char", 'u'::"char"])) AND pkc.conrelid = con.confrelid
-    LEFT JOIN pg_namespace npkc ON pkc.connamespace = npkc.oid
+    LEFT JOIN pg_namespace npkc ON fc.relnamespace = npkc.oid
 WHERE (pg_has_role(c.relowner, 'USAGE') OR has_table_privilege(c.oid, 'INSERT, UPDATE, DELETE, TRUNCATE, REFERENCES, TRIGGER') OR has_any_column_privilege(c.oid, 'INSERT, UPDATE, REFERENCES'))
   AND ncon.nspname = ANY($1);
diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index 0c10d9f..48a1313 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -29,6 +29,6 @@ FROM pg_catalog.pg_index pi
     JOIN pg_catalog.pg_namespace pn ON pc_index.relnamespace = pn.oid
     JOIN pg_catalog.pg_class pc_table ON pc_table.oid = pi.indrelid
     JOIN pg_am am ON am.oid=pc_index.relam
-    LEFT JOIN pg_catalog.pg_constraint pc ON pc.conindid = pc_index.oid
+    LEFT JOIN pg_catalog.pg_constraint pc ON pc.conindid = pc_index.oid AND pc.contype IN ('p', 'u', 'x')
 WHERE pc.oid IS NULL
     AND pn.nspname = ANY($1);
-- 
2.43.0


From 021c961261627c391abdb89925a60325b7a83c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 37/50] fix: clone tells array types from other subscriptable
 types

---
 src/introspection/column.sql | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index 8dc09bd..82c2315 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -12,7 +12,7 @@ SELECT
     a.attnotnull OR t.typtype = 'd' AND t.typnotnull
         AS "not_null",
     CASE
-        WHEN t.typelem <> 0 THEN (SELECT eltype.typname FROM pg_type eltype WHERE eltype.oid = t.typelem) 
+        WHEN t.typelem <> 0 AND t.typlen = -1 THEN (SELECT eltype.typname FROM pg_type eltype WHERE eltype.oid = t.typelem) 
         ELSE t.typname
     END 
     ||
@@ -43,7 +43,7 @@ SELECT
     ELSE ''
     END
     ||
-    CASE WHEN t.typelem <> 0 THEN '[]' ELSE '' END
+    CASE WHEN t.typelem <> 0 AND t.typlen = -1 THEN '[]' ELSE '' END
         AS "data_type"
 FROM pg_attribute a
     LEFT JOIN pg_attrdef ad ON a.attrelid = ad.adrelid AND a.attnum = ad.adnum
-- 
2.43.0


From c200208e0356d2c05f08de8b3ef0c171e60b9055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 38/50] fix: clone writes timestamptz and timetz precisions as
 PostgreSQL reads them

---
 src/introspection/column.sql | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index 82c2315..63ef8a1 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -17,7 +17,7 @@ SELECT
     END 
     ||
     CASE WHEN a.atttypmod != -1 THEN
-        CASE t.typname
+        REPLACE(CASE t.typname
                 WHEN 'bpchar' THEN bpchartypmodout(a.atttypmod)
                 WHEN '_bpchar' THEN bpchartypmodout(a.atttypmod)
                 WHEN 'varchar' THEN varchartypmodout(a.atttypmod)
@@ -39,7 +39,7 @@ SELECT
                 WHEN 'numeric' THEN numerictypmodout(a.atttypmod)
                 WHEN '_numeric' THEN numerictypmodout(a.atttypmod)
                 ELSE null
-        END::TEXT
+        END::TEXT, CASE WHEN t.typname IN ('timestamptz', '_timestamptz', 'timetz', '_timetz') THEN ' with time zone' ELSE '' END, '')
     ELSE ''
     END
     ||
-- 
2.43.0


From 095e049eea4a001241adb3e51cacff2efb730c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 39/50] fix: refuse histories with versions outside the chain

---
 src/history/fsh.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index faab6f6..c5f175c 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -36,6 +36,7 @@ impl FSHistory {
             interrupted_make: None,
         };
 
+        let mut version_names = vec![];
         let dir_entries = std::fs::read_dir(&dir)?;
         for entry in dir_entries {
             let entry = entry?;
@@ -48,6 +49,7 @@ impl FSHistory {
             let version_name = filename.strip_suffix(".yaml").unwrap().to_owned();
 
             let v = history.get_version(&version_name)?;
+            version_names.push(version_name);
 
             if let Some(previous) = v.previous {
                 if let Some(existing) = history.next_map.get(&previous) {
@@ -68,10 +70,12 @@ impl FSHistory {
         }
 
         let mut curr_version = "init".to_string();
+        let mut chain = vec![curr_version.clone()];
         for _ in 0..history.next_map.len() {
             if let Some(next) = history.next_map.get(&curr_version) {
                 history.current_version = curr_version.clone();
                 curr_version = next.clone();
+                chain.push(curr_version.clone());
             }
         }
         if curr_version != STAGE {
@@ -80,6 +84,12 @@ impl FSHistory {
                 low: INIT.to_owned(),
             });
         }
+        if let Some(stray) = version_names.into_iter().find(|v| !chain.contains(v)) {
+            return Err(FSHistoryError::Unreachable {
+                high: stray,
+                low: INIT.to_owned(),
+            });
+        }
 
         Ok(history)
     }
-- 
2.43.0


From 526e4c98dcbfa56799566b4a053bdcd81d3a9203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 40/50] fix: migrations of the same database run one at a time

---
 src/history/dbh.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/history/dbh.rs b/src/history/dbh.rs
index acf2c5a..4d7b732 100644
--- a/src/history/dbh.rs
+++ b/src/history/dbh.rs
@@ -108,6 +108,8 @@ impl DBHistory {
         if !self.meta_schema_exists(tx)? {
             self.create_meta_schema(tx)?;
         }
+        // one migration at a time: what is read from here on stays true until the commit
+        tx.execute(&format_lock_version_sql(&self.metadata_schema), &[])?;
         Ok(())
     }
 
@@ -178,6 +180,9 @@ fn format_create_table_sql(schema: &str) -> String {
         sql_qn(schema),
     )
 }
+fn format_lock_version_sql(schema: &str) -> String {
+    format!("LOCK TABLE {}.version IN EXCLUSIVE MODE", sql_qn(schema))
+}
 fn format_insert_version_sql(schema: &str) -> String {
     format!(
         "INSERT INTO {}.version (name, previous, changes, up, down) VALUES ($1, $2, $3::TEXT::JSON, $4, $5)",
-- 
2.43.0


From 06d1e01948518c847153c480b820a74e12693a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:28 +0000
Subject: [PATCH 41/50] fix: clone keeps all keys of indexes that mix columns
 and expressions

---
 src/introspection/index.sql |  5 +----
 src/introspection/mod.rs    | 27 ++++++++++++---------------
 2 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index 48a1313..cf5d605 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -12,11 +12,8 @@ SELECT
     pi.indnatts
         AS key_length,
     (
-        SELECT array_agg(quote_ident(pa.attname) ORDER BY key.ord) 
+        SELECT array_agg(pg_catalog.pg_get_indexdef(pi.indexrelid, key.ord::int, false) ORDER BY key.ord)
         FROM unnest(pi.indkey) WITH ORDINALITY AS key(i, ord)
-            JOIN pg_catalog.pg_attribute pa
-                ON pa.attrelid = pi.indrelid
-                    AND pa.attnum = i 
     ) AS key_columns,
     ( 
         SELECT array_agg(o)
diff --git a/src/introspection/mod.rs b/src/introspection/mod.rs
index cd3a7f8..ce19d61 100644
--- a/src/introspection/mod.rs
+++ b/src/introspection/mod.rs
@@ -228,21 +228,18 @@ fn load_indexes(
     schemas: &[&str],
 ) -> Result<(), AnyError> {
     for iindex in index::introspect_indexes(tx, schemas)? {
-        let key_expressions = if let Some(expressions) = iindex.expressions {
-            vec![expressions] //
-        } else {
-            let key_columns = iindex.key_columns.unwrap();
-            key_columns
-                .into_iter()
-                .zip(iindex.key_options)
-                .map(|(column, option)| match option {
-                    0 => column,
-                    1 => format!("{} DESC NULLS LAST", column),
-                    2 => format!("{} NULLS FIRST", column),
-                    _ => format!("{} DESC", column),
-                })
-                .collect()
-        };
+        let key_expressions = iindex
+            .key_columns
+            .unwrap_or_default()
+            .into_iter()
+            .zip(iindex.key_options)
+            .map(|(key, option)| match option {
+                0 => key,
+                1 => format!("{} DESC NULLS LAST", key),
+                2 => format!("{} NULLS FIRST", key),
+                _ => format!("{} DESC", key),
+            })
+            .collect();
 
         let index = Index {
             name: iindex.index_name,
-- 
2.43.0


From 6da5c10b6751b6c5ed63ac8ff8f822bae9fbde7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:48 +0000
Subject: [PATCH 42/50] fix: clone keeps the arguments of functions

---
 src/introspection/function.sql | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/introspection/function.sql b/src/introspection/function.sql
index 2331ce4..da05796 100644
--- a/src/introspection/function.sql
+++ b/src/introspection/function.sql
@@ -1,6 +1,9 @@
 SELECT
     n.nspname AS schema,
-    p.proname AS name,
+    CASE
+        WHEN p.pronargs > 0 THEN p.proname || '(' || pg_get_function_arguments(p.oid) || ')'
+        ELSE p.proname
+    END AS name,
     p.prosrc AS body,
     l.lanname AS language,
     CASE
-- 
2.43.0


From e1b764d0b82feada20e28da78fd2f37a309be458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 43/50] fix: an attribute key followed by anything else is an
 unknown key

---
 src/definition/base/yaml.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index 3242a94..4a7e40e 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -43,6 +43,21 @@ static KEYWORDS: [&str; 35] = [
     "view",
 ];
 
+/// Keywords that are followed by a name.
+static NAMED_KEYWORDS: [&str; 11] = [
+    "column",
+    "constraint",
+    "function",
+    "index",
+    "on",
+    "owned by",
+    "references",
+    "schema",
+    "sequence",
+    "table",
+    "view",
+];
+
 pub fn parse_mapping_to_nodes(val: &serde_yaml::Mapping) -> Result<Vec<Node>, Error> {
     let mut nodes = Vec::with_capacity(val.len());
 
@@ -91,6 +106,9 @@ fn create_node_from_mapping_key(key: &str) -> Result<Node, Error> {
     }
     let name = key[node.r#type.len()..].trim().to_string();
     if !name.is_empty() {
+        if !NAMED_KEYWORDS.contains(&node.r#type) {
+            return Err(Error::new(format!("Invalid key: {}", key)));
+        }
         node.name = Some(name);
     }
     Ok(node)
-- 
2.43.0


From e23010d9b29a795233e63195f0c3f2a7ed245577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 44/50] fix: an attribute given twice is refused

---
 src/definition/base/yaml.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index 4a7e40e..e77229f 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -58,6 +58,18 @@ static NAMED_KEYWORDS: [&str; 11] = [
     "view",
 ];
 
+/// Keywords that may be given several times, with different names.
+static OBJECT_KEYWORDS: [&str; 8] = [
+    "column",
+    "constraint",
+    "function",
+    "index",
+    "schema",
+    "sequence",
+    "table",
+    "view",
+];
+
 pub fn parse_mapping_to_nodes(val: &serde_yaml::Mapping) -> Result<Vec<Node>, Error> {
     let mut nodes = Vec::with_capacity(val.len());
 
@@ -68,6 +80,10 @@ pub fn parse_mapping_to_nodes(val: &serde_yaml::Mapping) -> Result<Vec<Node>, Er
 
         let mut node = create_node_from_mapping_key(key)?;
 
+        if !OBJECT_KEYWORDS.contains(&node.r#type) && nodes.iter().any(|n: &Node| n.r#type == node.r#type) {
+            return Err(Error::new(format!("Duplicate key: {}", key)));
+        }
+
         match v {
             serde_yaml::Value::Mapping(child_mapping) => {
                 let nodes = parse_mapping_to_nodes(child_mapping)?;
-- 
2.43.0


From 417f61704318d1dc5c99873e0e0da65814765461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 45/50] fix: an empty column type or default is refused

---
 src/definition/ddl/column.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/definition/ddl/column.rs b/src/definition/ddl/column.rs
index ad2c5c5..493899e 100644
--- a/src/definition/ddl/column.rs
+++ b/src/definition/ddl/column.rs
@@ -39,6 +39,12 @@ fn parse_column_expression(input: &str) -> Result<(String, bool, Option<String>)
         let not_null = caps.name("notnull").is_some();
         let default_expr = caps.name("default").map(|s| s.as_str().trim().to_string());
 
+        if data_type.is_empty() || default_expr.as_ref().is_some_and(|d| d.is_empty()) {
+            return Err(Error::InvalidTypeExpression {
+                type_expression: input.to_string(),
+            });
+        }
+
         Ok((data_type, not_null, default_expr))
     } else {
         Err(Error::InvalidTypeExpression {
-- 
2.43.0


From 4cb430e9fad77c47d9cb6939bf4f000e98115df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 46/50] fix: an index, primary key or foreign key without
 columns is refused

---
 src/definition/ddl/foreignkey.rs | 2 +-
 src/definition/ddl/index.rs      | 2 +-
 src/definition/ddl/primarykey.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/definition/ddl/foreignkey.rs b/src/definition/ddl/foreignkey.rs
index 58e0526..91620ab 100644
--- a/src/definition/ddl/foreignkey.rs
+++ b/src/definition/ddl/foreignkey.rs
@@ -56,7 +56,7 @@ pub fn parse_foreign_key_constraint_definition(
             errors.push(e);
         }
     }
-    if columns.is_none() {
+    if columns.as_ref().map_or(true, |v| v.is_empty()) {
         errors.push(Error::new_attribute_required(n, "columns"));
     }
     if target_schema.is_none() || target_table.is_none() || target_columns.is_empty() {
diff --git a/src/definition/ddl/index.rs b/src/definition/ddl/index.rs
index 1e4f901..0da926d 100644
--- a/src/definition/ddl/index.rs
+++ b/src/definition/ddl/index.rs
@@ -45,7 +45,7 @@ pub fn parse_index_definition(ctx: &Context, n: &Node) -> Result<Index, Error> {
     if method.is_none() {
         method = Some(defaults::get_default_index_method());
     }
-    if table_name.is_none() || key_expressions.is_none() {
+    if table_name.is_none() || key_expressions.as_ref().map_or(true, |v| v.is_empty()) {
         errors.push(Error::new_attribute_required(n, "on"));
     }
 
diff --git a/src/definition/ddl/primarykey.rs b/src/definition/ddl/primarykey.rs
index 6922d28..d6616cc 100644
--- a/src/definition/ddl/primarykey.rs
+++ b/src/definition/ddl/primarykey.rs
@@ -39,7 +39,7 @@ pub fn parse_primary_key_definition(
         }
     }
 
-    if columns.is_none() {
+    if columns.as_ref().map_or(true, |v| v.is_empty()) {
         errors.push(Error::new_attribute_required(n, "primary key"));
     }
     if deferrable.is_none() {
-- 
2.43.0


From 91a0b171a058621632d7d2fcb924c0767ff4bf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:06 +0000
Subject: [PATCH 47/50] fix: the ledger holds version names of any length

make accepts labels that give names of more than 128 characters, and such a
version could never be applied.
---
 src/history/dbh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/history/dbh.rs b/src/history/dbh.rs
index 4d7b732..641201f 100644
--- a/src/history/dbh.rs
+++ b/src/history/dbh.rs
@@ -168,8 +168,8 @@ fn format_create_schema_sql(schema: &str) -> String {
 fn format_create_table_sql(schema: &str) -> String {
     format!(
         "CREATE TABLE {}.version (
-    name VARCHAR(128) NOT NULL PRIMARY KEY,
-    previous VARCHAR(128) REFERENCES {}.version(name),
+    name TEXT NOT NULL PRIMARY KEY,
+    previous TEXT REFERENCES {}.version(name),
     changes JSON NOT NULL,
     up TEXT[] NOT NULL,
     down TEXT[] NOT NULL,
-- 
2.43.0


From 7e6932d06e2a0279f714e72cbd7ca0247fdfb2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:11 +0000
Subject: [PATCH 48/50] fix: clone reads the expression of a check, not the
 words after it

---
 src/introspection/check.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/introspection/check.sql b/src/introspection/check.sql
index 282aab9..20fa15d 100644
--- a/src/introspection/check.sql
+++ b/src/introspection/check.sql
@@ -5,7 +5,7 @@ SELECT
         table_name,
     con.conname
         constraint_name,
-    SUBSTRING(pg_get_constraintdef(con.oid), 7)
+    '(' || pg_get_expr(con.conbin, con.conrelid) || ')'
         check_clause,
     con.condeferrable
         is_deferrable,
-- 
2.43.0


From 38d8a205e0241b3ceb81654d6beca52e56e1ea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:11 +0000
Subject: [PATCH 49/50] fix: clone leaves out the indexes and checks of what is
 no table

---
 src/introspection/check.sql | 2 +-
 src/introspection/index.sql | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/introspection/check.sql b/src/introspection/check.sql
index 20fa15d..767ec23 100644
--- a/src/introspection/check.sql
+++ b/src/introspection/check.sql
@@ -16,5 +16,5 @@ FROM pg_constraint con
     LEFT JOIN pg_class c ON c.oid = con.conrelid
     LEFT JOIN pg_type t ON t.oid = con.contypid
 WHERE pg_has_role(COALESCE(c.relowner, t.typowner), 'USAGE') AND con.contype = 'c'
-    AND con.conrelid != 0
+    AND c.relkind = ANY (ARRAY['r'::"char", 'p'::"char"])
     AND rs.nspname = ANY($1);
diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index cf5d605..63879ab 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -28,4 +28,5 @@ FROM pg_catalog.pg_index pi
     JOIN pg_am am ON am.oid=pc_index.relam
     LEFT JOIN pg_catalog.pg_constraint pc ON pc.conindid = pc_index.oid AND pc.contype IN ('p', 'u', 'x')
 WHERE pc.oid IS NULL
+    AND pc_table.relkind = ANY (ARRAY['r'::"char", 'p'::"char"])
     AND pn.nspname = ANY($1);
-- 
2.43.0


From f6ed3332d0fe7f6d4f5d0ef5e39f8ef4560e7528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:11 +0000
Subject: [PATCH 50/50] fix: clone leaves out procedures, aggregates and what
 belongs to extensions

---
 src/introspection/function.sql | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/introspection/function.sql b/src/introspection/function.sql
index da05796..17bcb71 100644
--- a/src/introspection/function.sql
+++ b/src/introspection/function.sql
@@ -20,3 +20,9 @@ FROM
     JOIN pg_namespace n ON p.pronamespace = n.oid
     JOIN pg_language l ON p.prolang = l.oid
 WHERE n.nspname = ANY($1)
+    AND p.prokind = 'f'
+    AND NOT EXISTS (
+        SELECT 1
+        FROM pg_depend d
+        WHERE d.classid = 'pg_proc'::regclass AND d.objid = p.oid AND d.deptype = 'e'
+    )
-- 
2.43.0

