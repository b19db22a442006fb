From 19be82df0571c7490d6204e0787cd19cea6e82a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:51 +0000
Subject: [PATCH 01/74] fix: keep the object's declared spec version when
 writing later versions

build() and start_new_version() let next_version() default to the latest
spec version, so the inventory of a 1.0 object became a 1.1 inventory while
the object declaration stayed 0=ocfl_object_1.0.
---
 ocfl/object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index e22a93b..dd8ba2a 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -305,6 +305,7 @@ class Object():  # pylint: disable=too-many-public-methods
             else:
                 nv = NewVersion.next_version(inventory=inventory,
                                              srcdir=os.path.join(srcdir, vdir),
+                                             spec_version=self.spec_version,
                                              metadata=metadata,
                                              content_path_normalization=self.content_path_normalization,
                                              forward_delta=self.forward_delta,
@@ -506,6 +507,7 @@ class Object():  # pylint: disable=too-many-public-methods
         inventory.manifest = manifest
         return NewVersion.next_version(inventory=inventory,
                                        srcdir=srcdir,
+                                       spec_version=inventory.spec_version,
                                        metadata=metadata,
                                        content_path_normalization=self.content_path_normalization,
                                        forward_delta=self.forward_delta,
-- 
2.43.0


From f06e01fa36d5f2433d95f3a4822020673f5d5fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:51 +0000
Subject: [PATCH 02/74] fix: name and compute inventory sidecar with the
 inventory's digest algorithm

write_inventory_and_sidecar() used the digest algorithm of the Object instance,
leaving an invalid object when the inventory uses a different one.
---
 ocfl/object.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index dd8ba2a..29ab9d2 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -250,8 +250,12 @@ class Object():  # pylint: disable=too-many-public-methods
         if inventory is not None:
             with self.obj_fs.open(invfile, "w") as fh:
                 inventory.write_json(fh)
-        digest = file_digest(invfile, self.digest_algorithm, fs=self.obj_fs)
-        sidecar = os.path.join(vdir, INVENTORY_FILENAME + "." + self.digest_algorithm)
+        # The sidecar must use the digest algorithm of the inventory written
+        digest_algorithm = self.digest_algorithm
+        if inventory is not None and inventory.digest_algorithm is not None:
+            digest_algorithm = inventory.digest_algorithm
+        digest = file_digest(invfile, digest_algorithm, fs=self.obj_fs)
+        sidecar = os.path.join(vdir, INVENTORY_FILENAME + "." + digest_algorithm)
         with self.obj_fs.open(sidecar, "w") as fh:
             fh.write(digest + " " + INVENTORY_FILENAME + "\n")
         return sidecar
-- 
2.43.0


From cc897a3df592a7589f6a7fea0889d0699ae77301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:51 +0000
Subject: [PATCH 03/74] fix: ocfl-sidecar uses the digest algorithm of the
 inventory

The inventory was parsed but its digestAlgorithm never used, so a sha256
inventory always got a .sha512 sidecar.
---
 ocfl-sidecar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl-sidecar.py b/ocfl-sidecar.py
index 1d6e4ed..6327389 100755
--- a/ocfl-sidecar.py
+++ b/ocfl-sidecar.py
@@ -46,7 +46,7 @@ def create_sidecar(args, directory):
             obj.digest_algorithm = args.digest
         else:  # Read inventory in the hope of setting digest_algoritm
             try:
-                obj.parse_inventory()
+                obj.digest_algorithm = obj.parse_inventory().digest_algorithm
             except ocfl.ObjectException as e:
                 logging.warning("Failed to read inventory in directory %s (%s)", directory, e)
         sidecar = obj.write_inventory_sidecar()
-- 
2.43.0


From 31aa8e9f86c5c29a6cd562594ebfbc4bc67e5de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:49 +0000
Subject: [PATCH 04/74] fix: keep manifest and files to copy in step in
 NewVersion add, delete and rename

- deleting a file added in the same new version left an empty manifest entry
  and still copied the file into the object
- renaming a file added in the same new version removed its manifest entry
- adding the same source file twice with dedupe off recorded two content paths
  but copied only one file
- fixity entries are removed along with the content path they describe
---
 ocfl/inventory.py   | 23 +++++++++++++++++++++--
 ocfl/new_version.py | 23 ++++++++++++++---------
 ocfl/object.py      |  6 +++---
 3 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/ocfl/inventory.py b/ocfl/inventory.py
index c1cea26..0cbd846 100644
--- a/ocfl/inventory.py
+++ b/ocfl/inventory.py
@@ -536,6 +536,21 @@ class Inventory():  # pylint: disable=too-many-public-methods
         else:
             fixities[digest].append(filepath)
 
+    def remove_fixity_data(self, filepath):
+        """Remove all fixity information for a file.
+
+        Arguments:
+            filepath (str): content path of the file
+
+        Does nothing if there is no fixity information for filepath.
+        """
+        for fixities in self.fixity.values():
+            for digest in list(fixities):
+                if filepath in fixities[digest]:
+                    fixities[digest].remove(filepath)
+                    if len(fixities[digest]) == 0:
+                        del fixities[digest]
+
     def normalize_digests(self, digest_algorithm=None):
         """Normalize the digests used in manifest and state.
 
@@ -792,7 +807,11 @@ class Version():
                         for cpath in self.inv.manifest[digest]:
                             if not cpath.startswith(self.vdir + "/"):
                                 cpaths.append(cpath)
-                        self.inv.manifest[digest] = cpaths
-                    # FIXME - Also adjust fixity!
+                            else:
+                                self.inv.remove_fixity_data(cpath)
+                        if len(cpaths) > 0:
+                            self.inv.manifest[digest] = cpaths
+                        else:
+                            del self.inv.manifest[digest]
                 return digest
         raise InventoryException("Logical path to delete %s not found!" % (path))
diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 926fbff..81a97b0 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -45,7 +45,7 @@ class NewVersion():
         self.dedupe = None
         # Additional state needed for final commit
         self.old_digest_algorithm = None
-        self.files_to_copy = {}  # dict: src_path -> content_path
+        self.files_to_copy = {}  # dict: content_path -> src_path
         self.src_fs = fsw_openfs(self.srcdir)
 
     @classmethod
@@ -342,7 +342,7 @@ class NewVersion():
                 or (not in_current_version and not self.forward_delta)
                 or (in_current_version and not self.dedupe)):
             # Yes, we copy this file in...
-            self.files_to_copy[src_path] = content_path
+            self.files_to_copy[content_path] = src_path
             inventory.add_file_to_manifest(digest=digest, content_path=content_path)
 
     def delete(self, logical_path):
@@ -364,6 +364,11 @@ class NewVersion():
             inventory.current_version.delete_logical_path(logical_path)
         except InventoryException:
             raise NewVersionException("Cannot delete logical path %s that does not exist in new version %s" % (logical_path, inventory.head))
+        # Don't copy in any files that are no longer part of this version
+        content_paths = inventory.content_paths
+        for content_path in list(self.files_to_copy):
+            if content_path not in content_paths:
+                del self.files_to_copy[content_path]
 
     def rename(self, old_logical_path, new_logical_path):
         """Rename content in the version state to a new logical_path.
@@ -379,14 +384,14 @@ class NewVersion():
         inventory = self.inventory
         if new_logical_path in inventory.current_version.logical_paths:
             raise NewVersionException("Cannot rename to logical path %s that already exists in new version %s" % (new_logical_path, inventory.head))
-        try:
-            digest = inventory.current_version.delete_logical_path(old_logical_path)
-            if digest in inventory.current_version.state:
-                inventory.current_version.state[digest].append(new_logical_path)
-            else:
-                inventory.current_version.state[digest] = [new_logical_path]
-        except InventoryException:
+        # Change just the state, the content and hence manifest are not changed
+        # by renaming
+        state = inventory.current_version.state
+        digest = inventory.current_version.digest_for_logical_path(old_logical_path)
+        if digest is None:
             raise NewVersionException("Cannot rename logical path %s that does not exist in new version %s" % (old_logical_path, inventory.head))
+        state[digest].remove(old_logical_path)
+        state[digest].append(new_logical_path)
 
     def add_from_srcdir(self):
         """Add all content from srcdir."""
diff --git a/ocfl/object.py b/ocfl/object.py
index 29ab9d2..6e8ef2c 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -322,7 +322,7 @@ class Object():  # pylint: disable=too-many-public-methods
             if objdir is not None:
                 self.write_inventory_and_sidecar(inventory, vdir)
                 # Copy files into this version
-                for (srcpath, objpath) in nv.files_to_copy.items():
+                for (objpath, srcpath) in nv.files_to_copy.items():
                     self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
         # Finally populate the object root
         if objdir is not None:
@@ -372,7 +372,7 @@ class Object():  # pylint: disable=too-many-public-methods
         self.write_object_declaration()
         self.write_inventory_and_sidecar(inventory)
         # Write version files
-        for (srcpath, objpath) in nv.files_to_copy.items():
+        for (objpath, srcpath) in nv.files_to_copy.items():
             self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
         logging.info("Created OCFL object %s in %s", self.id, objdir)
         return inventory
@@ -537,7 +537,7 @@ class Object():  # pylint: disable=too-many-public-methods
         # Make new version directory
         self.obj_fs.makedir(inventory.head)
         # Copy files into this version
-        for (srcpath, objpath) in new_version.files_to_copy.items():
+        for (objpath, srcpath) in new_version.files_to_copy.items():
             self.copy_into_object(new_version.src_fs, srcpath, objpath, create_dirs=True)
         # Write inventory in both root and head version
         self.write_inventory_and_sidecar(inventory, inventory.head)
-- 
2.43.0


From 39a97989c749965b796caa94427393b60f76496b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:21 +0000
Subject: [PATCH 05/74] fix: NewVersion refuses logical and content paths that
 OCFL does not allow

Paths with empty, . or .. elements, and paths that need another path to be both
a file and a directory, were accepted and written as an invalid object.
---
 ocfl/new_version.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 81a97b0..537ff31 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -21,6 +21,24 @@ class NewVersionException(Exception):
     """Exception class for NewVersion objects."""
 
 
+def _path_problem(path, existing_paths):
+    """Check whether path may be used alongside existing_paths.
+
+    Arguments:
+        path (str): logical path or content path to check
+        existing_paths (iterable of str): paths already in use
+
+    Returns:
+        str or None: description of the problem if there is one, else None
+    """
+    if any(element in ("", ".", "..") for element in path.split("/")):
+        return "has empty, . or .. path elements"
+    for existing in existing_paths:
+        if existing.startswith(path + "/") or path.startswith(existing + "/"):
+            return "conflicts with path %s" % (existing)
+    return None
+
+
 class NewVersion():
     """Class to represent a new version to be added to an Object."""
 
@@ -302,7 +320,8 @@ class NewVersion():
                 object
 
         Raises:
-            NewVersionException: if the specifies content path is not allowed
+            NewVersionException: if the specifies content path is not allowed, or
+                if the logical path is not allowed or already exists
         """
         inventory = self.inventory
         prefix = inventory.head + "/" + self.content_directory + "/"
@@ -315,10 +334,16 @@ class NewVersion():
         elif content_path in inventory.content_paths:
             raise NewVersionException("Bad content path %s, already exists!"
                                       % (content_path))
+        problem = _path_problem(content_path, inventory.content_paths)
+        if problem is not None:
+            raise NewVersionException("Bad content path %s, %s" % (content_path, problem))
         logging.debug("add(%s %s %s)", src_path, content_path, logical_path)
         # Does this logical path already exist?
         if logical_path in inventory.current_version.logical_paths:
             raise NewVersionException("Logical path %s already exists in new version %s" % (logical_path, inventory.head))
+        problem = _path_problem(logical_path, inventory.current_version.logical_paths)
+        if problem is not None:
+            raise NewVersionException("Bad logical path %s, %s" % (logical_path, problem))
         # Work out digest, add to state
         digest = file_digest(src_path, inventory.digest_algorithm, fs=self.src_fs)
         if digest in inventory.current_version.state_add_if_not_present():
@@ -380,6 +405,7 @@ class NewVersion():
         Raises:
             NewVersionException: if the old logical path doesn't exist in the
                 new version state, or if the new logical path already exists
+                or is not allowed
         """
         inventory = self.inventory
         if new_logical_path in inventory.current_version.logical_paths:
@@ -390,6 +416,10 @@ class NewVersion():
         digest = inventory.current_version.digest_for_logical_path(old_logical_path)
         if digest is None:
             raise NewVersionException("Cannot rename logical path %s that does not exist in new version %s" % (old_logical_path, inventory.head))
+        problem = _path_problem(new_logical_path, [path for path in inventory.current_version.logical_paths
+                                                   if path != old_logical_path])
+        if problem is not None:
+            raise NewVersionException("Bad logical path %s, %s" % (new_logical_path, problem))
         state[digest].remove(old_logical_path)
         state[digest].append(new_logical_path)
 
-- 
2.43.0


From 64cf602a4bc3b70e887d1b9bf6e0e302c33cc705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:21 +0000
Subject: [PATCH 06/74] fix: don't touch the existing object before the new
 version directory is made

write_new_version() removed the old root inventory sidecar (on a change of
digest algorithm) before creating the new version directory. If that directory
already exists, because another process has added the version, then the update
is refused but the object had already been made invalid.
---
 ocfl/object.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 6e8ef2c..60f045b 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -530,10 +530,6 @@ class Object():  # pylint: disable=too-many-public-methods
             ocfl.Inventory: of the latest version just written
         """
         inventory = new_version.inventory
-        # Delete old root inventory sidecar if we changed digest algorithm
-        if (new_version.old_digest_algorithm is not None
-                and inventory.digest_algorithm != new_version.old_digest_algorithm):
-            self.obj_fs.rm(INVENTORY_FILENAME + "." + new_version.old_digest_algorithm)
         # Make new version directory
         self.obj_fs.makedir(inventory.head)
         # Copy files into this version
@@ -542,6 +538,10 @@ class Object():  # pylint: disable=too-many-public-methods
         # Write inventory in both root and head version
         self.write_inventory_and_sidecar(inventory, inventory.head)
         self.write_inventory_and_sidecar(inventory)
+        # Delete old root inventory sidecar if we changed digest algorithm
+        if (new_version.old_digest_algorithm is not None
+                and inventory.digest_algorithm != new_version.old_digest_algorithm):
+            self.obj_fs.rm(INVENTORY_FILENAME + "." + new_version.old_digest_algorithm)
         logging.info("Updated OCFL object %s by adding %s", inventory.id, inventory.head)
         return inventory
 
-- 
2.43.0


From 04f35f489454999934c471f910004fdea3edd532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:21 +0000
Subject: [PATCH 07/74] fix: create() writes content before the inventories
 that refer to it

If creation was interrupted then a complete looking root inventory could refer
to content that was missing or truncated. The same order, content first and
root inventory last, is used in write_new_version().
---
 ocfl/object.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 60f045b..c89062c 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -367,13 +367,13 @@ class Object():  # pylint: disable=too-many-public-methods
             return inventory
         # Write out v1 object
         self.open_obj_fs(objdir, create=True)
+        # Write version files
+        for (objpath, srcpath) in nv.files_to_copy.items():
+            self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
         self.write_inventory_and_sidecar(inventory, "v1")
         # Write object root with object declaration, inventory and sidecar
         self.write_object_declaration()
         self.write_inventory_and_sidecar(inventory)
-        # Write version files
-        for (objpath, srcpath) in nv.files_to_copy.items():
-            self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
         logging.info("Created OCFL object %s in %s", self.id, objdir)
         return inventory
 
-- 
2.43.0


From db78b3a33140da7c66ccd1654729eb6898960287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:21 +0000
Subject: [PATCH 08/74] fix: always record created in a new version

Without a metadata argument create() and write_new_version() wrote a version
block without the required created property, so the object was not valid.
---
 ocfl/object.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index c89062c..dd9930a 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -350,6 +350,8 @@ class Object():  # pylint: disable=too-many-public-methods
         """
         if self.id is None:
             raise ObjectException("Identifier is not set!")
+        if metadata is None:
+            metadata = VersionMetadata()
         nv = NewVersion.first_version(srcdir=srcdir,
                                       identifier=self.id,
                                       spec_version=self.spec_version,
@@ -530,6 +532,9 @@ class Object():  # pylint: disable=too-many-public-methods
             ocfl.Inventory: of the latest version just written
         """
         inventory = new_version.inventory
+        # The created property is required, use current time if not set
+        if new_version.created is None:
+            new_version.created = VersionMetadata().as_dict()["created"]
         # Make new version directory
         self.obj_fs.makedir(inventory.head)
         # Copy files into this version
-- 
2.43.0


From c136bf223899e8c31bcd56d67bc6ac758a47e057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:21 +0000
Subject: [PATCH 09/74] fix: extract_file() does not overwrite an existing file

As documented, a file of the same name must not exist in dstdir.
---
 ocfl/object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index dd9930a..e486972 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -777,6 +777,8 @@ class Object():  # pylint: disable=too-many-public-methods
             raise ObjectException("Destination parent directory does not exist or could not be opened (%s)" % (e))
         # Now extract...
         basename = os.path.basename(logical_path)
+        if dst_fs.exists(basename):
+            raise ObjectException("Target file %s already exists in %s, aborting!" % (basename, dstdir))
         manifest = inv.manifest
         state = inv.version(version).state
         # Extract the specified file
-- 
2.43.0


From 3453af84a06e3999afdc2ec8f483387ac25e54e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:21 +0000
Subject: [PATCH 10/74] fix: parse_inventory() honours lax_digests

With lax_digests set it was possible to create and validate an object with a
non-preferred digest algorithm but not to extract from or update it.
---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index e486972..2396f05 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -810,7 +810,7 @@ class Object():  # pylint: disable=too-many-public-methods
         with self.obj_fs.open(INVENTORY_FILENAME, "r") as fh:
             inventory = Inventory(json.load(fh))
         # Validate
-        iv = InventoryValidator()
+        iv = InventoryValidator(lax_digests=self.lax_digests)
         if not iv.validate(inventory=inventory.data):
             raise ObjectException("Root inventory is not valid (%d errors)" % iv.log.num_errors)
         self.spec_version = iv.spec_version
-- 
2.43.0


From 8cdcac6576111087cbdc9743666906662f58b579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:21 +0000
Subject: [PATCH 11/74] fix: support documented None values for srcdir and
 objdir in updates

add_version_with_content(srcdir=None) is a metadata only update that keeps the
content, and start_new_version(objdir=None) uses the open object filesystem.
Both raised exceptions. Also correct the format of the sanity check exception.
---
 ocfl/object.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 2396f05..d54a729 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -401,11 +401,11 @@ class Object():  # pylint: disable=too-many-public-methods
         between versions.
         """
         nv = self.start_new_version(objdir=objdir,
-                                    srcdir=srcdir,
+                                    srcdir="" if srcdir is None else srcdir,
                                     digest_algorithm=self.digest_algorithm,
                                     fixity=self.fixity,
                                     metadata=metadata,
-                                    carry_content_forward=False)
+                                    carry_content_forward=(srcdir is None))
         # Add files if srcdir is set
         if srcdir is not None:
             nv.add_from_srcdir()
@@ -448,10 +448,11 @@ class Object():  # pylint: disable=too-many-public-methods
             finally be added with write_new_version()
         """
         # Check the current object
-        self.open_obj_fs(objdir)
+        if objdir is not None:
+            self.open_obj_fs(objdir)
         validator = Validator(check_digests=False, lax_digests=self.lax_digests)
-        if not validator.validate_object(objdir):
-            raise ObjectException("Object at '%s' is not valid, aborting" % objdir)
+        if not validator.validate_object(self.obj_fs):
+            raise ObjectException("Object at '%s' is not valid, aborting" % (objdir))
         inventory = self.parse_inventory()
         # Object is valid, have inventory
         #
@@ -500,7 +501,7 @@ class Object():  # pylint: disable=too-many-public-methods
                     d = file_digest(file, digest_algorithm, fs=self.obj_fs)
                     if d != digest:
                         raise ObjectException("Failed sanity check - files %s and %s should have same %s digest but calculated %s and %s respectively" %
-                                              files[0], file, digest_algorithm, digest, d)
+                                              (files[0], file, digest_algorithm, digest, d))
                 new_manifest[digest] = manifest[old_digest]
             manifest = new_manifest
             # Now update all state blocks
-- 
2.43.0


From 5aa201573acfe992c216c9f3f27eaa165707fc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:00 +0000
Subject: [PATCH 12/74] fix: create() and build() do not overwrite an existing
 object

The documentation says that objdir must not already exist, but an object
already there was overwritten, destroying its content.
---
 ocfl/object.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index d54a729..e958974 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -141,6 +141,23 @@ class Object():  # pylint: disable=too-many-public-methods
         except FileNotFoundError as e:
             raise ObjectException("Failed to open object filesystem '%s' (%s)" % (objdir, e))
 
+    def _open_new_obj_fs(self, objdir):
+        """Create directory for new object and open a filesystem for it.
+
+        Arguments:
+            objdir (str): location of the new object
+
+        Raises:
+            ocfl.ObjectException: if there is already something at objdir
+        """
+        self.open_obj_fs(objdir, create=True)
+        try:
+            names = fsw_listdir_names(self.obj_fs)
+        except FileNotFoundError:
+            names = []  # filesystem, such as S3, that does not keep empty directories
+        if len(names) > 0:
+            raise ObjectException("Object directory %s already exists and is not empty, aborting!" % (objdir))
+
     def copy_into_object(self, src_fs, srcfile, filepath, create_dirs=False):
         """Copy from srcfile to filepath in object."""
         dstpath = os.path.dirname(filepath)
@@ -290,7 +307,7 @@ class Object():  # pylint: disable=too-many-public-methods
         if self.id is None:
             raise ObjectException("Can't build object, identifier is not set!")
         if objdir is not None:
-            self.open_obj_fs(objdir, create=True)
+            self._open_new_obj_fs(objdir)
         num_versions = 0
         src_fs = fsw_openfs(srcdir)
         inventory = None
@@ -368,7 +385,7 @@ class Object():  # pylint: disable=too-many-public-methods
         if objdir is None:
             return inventory
         # Write out v1 object
-        self.open_obj_fs(objdir, create=True)
+        self._open_new_obj_fs(objdir)
         # Write version files
         for (objpath, srcpath) in nv.files_to_copy.items():
             self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
-- 
2.43.0


From 442655b8f473db0cb3cf6f6f578b0bd1e8a202d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:00 +0000
Subject: [PATCH 13/74] fix: build() with zero-padded, duplicate or missing
 source version directories

Source directories v01 or v0001 made build() fail with an AttributeError (or,
with both v2 and v02 present, put the inventory of v2 in v02), and a source
without version directories left behind an object declaration only.
---
 ocfl/object.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index e958974..82b068a 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -215,16 +215,20 @@ class Object():  # pylint: disable=too-many-public-methods
             try:
                 vdir = entry["name"]
                 vn = parse_version_directory(vdir)
-                versions[vn] = vdir
             except ObjectException:
                 # Ignore directories that are not valid version dirs
-                pass
+                continue
+            if vn in versions:
+                raise ObjectException("More than one source directory for version %d (%s and %s)" % (vn, versions[vn], vdir))
+            versions[vn] = vdir
         # Do we have a valid sequence of versions?
         n = 1
         for vn in sorted(versions.keys()):
             if vn != n:
                 raise ObjectException("Bad version sequence (%s)" % (str(sorted(versions.keys()))))
             n += 1
+        if len(versions) == 0:
+            raise ObjectException("No version directories found")
         # Go through versions in order building versions array, deduping
         # files to include if selected
         for vn in sorted(versions.keys()):
@@ -313,7 +317,7 @@ class Object():  # pylint: disable=too-many-public-methods
         inventory = None
         # Create each version of the object
         for (vdir, metadata) in self.version_dirs_and_metadata(src_fs, versions_metadata):
-            if vdir == "v1":
+            if inventory is None:
                 nv = NewVersion.first_version(srcdir=os.path.join(srcdir, vdir),
                                               identifier=self.id,
                                               spec_version=self.spec_version,
@@ -337,7 +341,7 @@ class Object():  # pylint: disable=too-many-public-methods
             inventory = nv.inventory
             num_versions += 1
             if objdir is not None:
-                self.write_inventory_and_sidecar(inventory, vdir)
+                self.write_inventory_and_sidecar(inventory, inventory.head)
                 # Copy files into this version
                 for (objpath, srcpath) in nv.files_to_copy.items():
                     self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
-- 
2.43.0


From bb0e8720a66ea1a4cfe1940b639c819c3e25d309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:41 +0000
Subject: [PATCH 14/74] fix: sha512-spec-ex digest regex matches the digests
 generated

file_digest() generates 15 leading characters for sha512-spec-ex.
---
 ocfl/digest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/digest.py b/ocfl/digest.py
index 2e99656..0c829a6 100755
--- a/ocfl/digest.py
+++ b/ocfl/digest.py
@@ -100,7 +100,7 @@ DIGEST_REGEXES = {
     "blake2b-384": r"""^[0-9a-fA-F]{96}$""",
     "blake2b-256": r"""^[0-9a-fA-F]{64}$""",
     "blake2b-160": r"""^[0-9a-fA-F]{40}$""",
-    "sha512-spec-ex": r"""^[0-9a-f]{6}\.\.\.[0-9a-f]{3}$""",
+    "sha512-spec-ex": r"""^[0-9a-f]{15}\.\.\.[0-9a-f]{3}$""",
     "sha256-spec-ex": r"""^[0-9a-f]{6}\.\.\.[0-9a-f]{3}$"""
 }
 
-- 
2.43.0


From a13ab048d1e2ae42c9447c100614578daf34876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:41 +0000
Subject: [PATCH 15/74] fix: refuse to write an inventory that is not valid

Settings such as an empty identifier, a contentDirectory including /, a created
value that is not a datetime, or a user address without a user name, resulted in
an invalid object. For an update this damaged an existing valid object.
---
 ocfl/object.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index 82b068a..7d8e523 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -158,6 +158,20 @@ class Object():  # pylint: disable=too-many-public-methods
         if len(names) > 0:
             raise ObjectException("Object directory %s already exists and is not empty, aborting!" % (objdir))
 
+    def _check_inventory_to_write(self, inventory):
+        """Check inventory before starting to write anything to an object.
+
+        Arguments:
+            inventory (ocfl.Inventory): inventory to be written. Non-preferred
+                digest algorithms are not treated as a problem here
+
+        Raises:
+            ocfl.ObjectException: if inventory is not valid
+        """
+        iv = InventoryValidator(lax_digests=True)
+        if not iv.validate(inventory.data):
+            raise ObjectException("Refusing to write invalid inventory for object %s (%s)" % (inventory.id, iv.log.status_str()))
+
     def copy_into_object(self, src_fs, srcfile, filepath, create_dirs=False):
         """Copy from srcfile to filepath in object."""
         dstpath = os.path.dirname(filepath)
@@ -341,6 +355,7 @@ class Object():  # pylint: disable=too-many-public-methods
             inventory = nv.inventory
             num_versions += 1
             if objdir is not None:
+                self._check_inventory_to_write(inventory)
                 self.write_inventory_and_sidecar(inventory, inventory.head)
                 # Copy files into this version
                 for (objpath, srcpath) in nv.files_to_copy.items():
@@ -389,6 +404,7 @@ class Object():  # pylint: disable=too-many-public-methods
         if objdir is None:
             return inventory
         # Write out v1 object
+        self._check_inventory_to_write(inventory)
         self._open_new_obj_fs(objdir)
         # Write version files
         for (objpath, srcpath) in nv.files_to_copy.items():
@@ -557,6 +573,7 @@ class Object():  # pylint: disable=too-many-public-methods
         # The created property is required, use current time if not set
         if new_version.created is None:
             new_version.created = VersionMetadata().as_dict()["created"]
+        self._check_inventory_to_write(inventory)
         # Make new version directory
         self.obj_fs.makedir(inventory.head)
         # Copy files into this version
-- 
2.43.0


From ca325c0f93b8b9596712995b0021b0452f34a9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:41 +0000
Subject: [PATCH 16/74] fix: record requested fixity data for content files

The fixity argument is documented as the set of fixity digest types to be added
for all content files, but only empty fixity blocks were written.
---
 ocfl/new_version.py | 26 +++++++++++++++++++++++++-
 ocfl/object.py      |  4 +++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 537ff31..2b7ecc6 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -11,7 +11,7 @@ import os.path
 from urllib.parse import quote as urlquote
 
 from .constants import DEFAULT_DIGEST_ALGORITHM, DEFAULT_CONTENT_DIRECTORY, DEFAULT_SPEC_VERSION
-from .digest import file_digest
+from .digest import file_digest, normalized_digest
 from .inventory import Inventory, InventoryException
 from .object_utils import make_unused_filepath
 from .fsw import fsw_openfs, fsw_walk_files
@@ -369,6 +369,30 @@ class NewVersion():
             # Yes, we copy this file in...
             self.files_to_copy[content_path] = src_path
             inventory.add_file_to_manifest(digest=digest, content_path=content_path)
+            self._add_fixity(src_path, content_path)
+
+    def _add_fixity(self, src_path, content_path):
+        """Add fixity data for a file being copied into the object.
+
+        Arguments:
+            src_path (str): path of the content within the source directory
+            content_path (str): content path within the object
+
+        Will add data for each of the fixity types in use in the inventory,
+        except for any types carried forward that aren't known to this code.
+        """
+        for digest_type in self.inventory.fixity:
+            try:
+                digest = file_digest(src_path, digest_type, fs=self.src_fs)
+            except ValueError:
+                logging.warning("Cannot add fixity data of unknown type %s for %s", digest_type, content_path)
+                continue
+            for existing in self.inventory.fixity[digest_type]:
+                # Use existing form of this digest if not normalized
+                if normalized_digest(existing, digest_type) == digest:
+                    digest = existing
+                    break
+            self.inventory.add_fixity_data(digest_type, digest, content_path)
 
     def delete(self, logical_path):
         """Delete a logical path from this new version.
diff --git a/ocfl/object.py b/ocfl/object.py
index 7d8e523..68dc941 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -521,7 +521,9 @@ class Object():  # pylint: disable=too-many-public-methods
                 for digest in old_fixity.difference(fixity):
                     inventory.fixity.pop(digest)
                 for digest in fixity.difference(old_fixity):
-                    logging.info("FIXME - need to add fixity with digest %s", digest)
+                    inventory.add_fixity_type(digest)
+                    for content_path in inventory.content_paths:
+                        inventory.add_fixity_data(digest, file_digest(content_path, digest, fs=self.obj_fs), content_path)
         if fixity != old_fixity:
             logging.info("New version will have %s instead of %s fixity",
                          ",".join(sorted(fixity)), ",".join(sorted(old_fixity)))
-- 
2.43.0


From 6d1478002380bdcc00b15e22cf92b8d92e6ec90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 17/74] fix: match the whole of inventory values against the
 allowed forms

A newline could be used to get round validation of content paths, the rest of
v1/content/a<newline>/../../../x was not checked, and values with trailing
characters were accepted for type, digest and created.
---
 ocfl/inventory_validator.py | 10 +++++-----
 ocfl/w3c_datetime.py        |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 08b3af5..b469cd4 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -135,7 +135,7 @@ class InventoryValidator():
             self._error("E038a", expected="https://ocfl.io/" + force_spec_version + "/spec/#inventory", got=inventory["type"])
         else:
             # Extract specification version
-            m = re.match(r"""https://ocfl.io/(\d+.\d)/spec/#inventory""", inventory["type"])
+            m = re.fullmatch(r"""https://ocfl\.io/(\d+\.\d)/spec/#inventory""", inventory["type"])
             if not m:
                 self._error("E038b", got=inventory["type"], assumed_spec_version=self.spec_version)
             elif m.group(1) in SPEC_VERSIONS_SUPPORTED:
@@ -276,7 +276,7 @@ class InventoryValidator():
             content_paths = set()
             content_directories = set()
             for digest in manifest:
-                m = re.match(self._digest_regex(), digest)
+                m = re.fullmatch(self._digest_regex(), digest)
                 if not m:
                     self._error("E025b", digest=digest, algorithm=self.digest_algorithm)  # wrong form of digest
                 elif not isinstance(manifest[digest], list):
@@ -328,7 +328,7 @@ class InventoryValidator():
                 else:
                     digests_seen = set()
                     for digest in fixity_algoritm_block:
-                        m = re.match(regex, digest)
+                        m = re.fullmatch(regex, digest)
                         if not m:
                             self._error("E057b", digest=digest, algorithm=digest_algorithm)  # wrong form of digest
                         elif not isinstance(fixity_algoritm_block[digest], list):
@@ -471,7 +471,7 @@ class InventoryValidator():
         else:
             digest_re = re.compile(self._digest_regex())
             for digest in state:
-                if not digest_re.match(digest):
+                if not digest_re.fullmatch(digest):
                     self._error("E050d", version=version, digest=digest)
                 elif not isinstance(state[digest], list):
                     self._error("E050e", version=version, digest=digest)
@@ -554,7 +554,7 @@ class InventoryValidator():
         if path.startswith("/") or path.endswith("/"):
             self._error("E100", path=path)
             return False
-        m = re.match(r"""^(v\d+)/([^/]+)/(.+)""", path)
+        m = re.fullmatch(r"""(v\d+)/([^/]+)/(.+)""", path, re.DOTALL)
         if not m:
             self._error("E042a", path=path)
             return False
diff --git a/ocfl/w3c_datetime.py b/ocfl/w3c_datetime.py
index 9cd7e9e..4f5cc6a 100644
--- a/ocfl/w3c_datetime.py
+++ b/ocfl/w3c_datetime.py
@@ -78,7 +78,7 @@ def str_to_datetime(s, context="datetime"):
     if s == "":
         raise ValueError("Attempt to set empty %s" % (context))
     # Make a date into a full datetime
-    m = re.match(r"\d\d\d\d(\-\d\d(\-\d\d)?)?$", s)
+    m = re.fullmatch(r"\d\d\d\d(\-\d\d(\-\d\d)?)?", s)
     if m is not None:
         if m.group(1) is None:
             s += "-01-01"
@@ -101,8 +101,8 @@ def str_to_datetime(s, context="datetime"):
     # Seems that one should be able to handle timezone offset
     # with dt.tzinfo module but this has variation in behavior
     # between python 2.6 and 2.7... so do here for now
-    m = re.match(r"(\d\d\d\d\-\d\d\-\d\dT\d\d:\d\d(:\d\d)?)(Z|([+-])"
-                 r"(\d\d):(\d\d))?$", s)
+    m = re.fullmatch(r"(\d\d\d\d\-\d\d\-\d\dT\d\d:\d\d(:\d\d)?)(Z|([+-])"
+                     r"(\d\d):(\d\d))?", s)
     if m is None:
         raise ValueError("Bad datetime format (%s)" % s)
     dt = dateutil_parser.parse(m.group(1) + "Z")
-- 
2.43.0


From 6ee6987f363f07cf9d806f20d461505d26bef0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 18/74] fix: detect conflicting paths where the directory is
 not the immediate parent

The E095b and E101b checks missed a path used as a file (a) and also as a
directory when there was nothing immediately within that directory (a/b/c).
---
 ocfl/inventory_validator.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index b469cd4..6e99850 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -51,6 +51,16 @@ def _get_logical_path_map(inventory, version):
     return file_map
 
 
+def _with_parents(directories):
+    """Set of all directories and all of their parent directories."""
+    all_directories = set()
+    for directory in directories:
+        elements = directory.split("/")
+        for n in range(1, len(elements) + 1):
+            all_directories.add("/".join(elements[0:n]))
+    return all_directories
+
+
 class InventoryValidator():
     """Class for OCFL Inventory Validator."""
 
@@ -294,7 +304,7 @@ class InventoryValidator():
                         if self._check_content_path(file, content_paths, content_directories):
                             manifest_files_correct_format.append(file)
             # Check for conflicting content paths
-            for path in content_directories:
+            for path in _with_parents(content_directories):
                 if path in content_paths:
                     self._error("E101b", path=path)
         return manifest_files, manifest_files_correct_format, unnormalized_digests
@@ -487,7 +497,7 @@ class InventoryValidator():
                     norm_digest = normalized_digest(digest, self.digest_algorithm)
                     digests.append(norm_digest)
             # Check for conflicting logical paths
-            for path in logical_directories:
+            for path in _with_parents(logical_directories):
                 if path in logical_paths:
                     self._error("E095b", version=version, path=path)
         return digests
-- 
2.43.0


From fd175513d9836ca77181707559f493bfb3f50fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 19/74] fix: str_to_datetime() accepts only ASCII digits and
 checks the whole string

---
 ocfl/w3c_datetime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/w3c_datetime.py b/ocfl/w3c_datetime.py
index 4f5cc6a..3fdf3fc 100644
--- a/ocfl/w3c_datetime.py
+++ b/ocfl/w3c_datetime.py
@@ -78,7 +78,7 @@ def str_to_datetime(s, context="datetime"):
     if s == "":
         raise ValueError("Attempt to set empty %s" % (context))
     # Make a date into a full datetime
-    m = re.fullmatch(r"\d\d\d\d(\-\d\d(\-\d\d)?)?", s)
+    m = re.fullmatch(r"\d\d\d\d(\-\d\d(\-\d\d)?)?", s, re.ASCII)
     if m is not None:
         if m.group(1) is None:
             s += "-01-01"
@@ -86,7 +86,7 @@ def str_to_datetime(s, context="datetime"):
             s += "-01"
         s += "T00:00:00Z"
     # Now have datetime with timezone info
-    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?$", s)
+    m = re.fullmatch(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?", s, re.ASCII)
     # Chop out fractional seconds if present
     fractional_seconds = 0
     if m is not None:
@@ -102,7 +102,7 @@ def str_to_datetime(s, context="datetime"):
     # with dt.tzinfo module but this has variation in behavior
     # between python 2.6 and 2.7... so do here for now
     m = re.fullmatch(r"(\d\d\d\d\-\d\d\-\d\dT\d\d:\d\d(:\d\d)?)(Z|([+-])"
-                     r"(\d\d):(\d\d))?", s)
+                     r"(\d\d):(\d\d))?", s, re.ASCII)
     if m is None:
         raise ValueError("Bad datetime format (%s)" % s)
     dt = dateutil_parser.parse(m.group(1) + "Z")
-- 
2.43.0


From 89c08b8a2c0933dd1d1ef24bd947022511fdd6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 20/74] fix: inventory validator gives a verdict for
 inventories with any structure

---
 ocfl/inventory_validator.py | 57 ++++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 7 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 6e99850..780e720 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -61,6 +61,32 @@ def _with_parents(directories):
     return all_directories
 
 
+def _well_formed_path_lists(block):
+    """True if block is an object with values that are lists of path strings."""
+    return (isinstance(block, dict)
+            and all(isinstance(paths, list) and all(isinstance(path, str) for path in paths)
+                    for paths in block.values()))
+
+
+def well_formed(inventory):
+    """True if the structure of manifest, versions and fixity blocks is good.
+
+    There will be errors already reported by InventoryValidator.validate() for
+    any inventory that is not well formed. However, values from such an inventory
+    are not safe to use in comparisons with other inventories or with content.
+    """
+    if not isinstance(inventory, dict) or not _well_formed_path_lists(inventory.get("manifest")):
+        return False
+    versions = inventory.get("versions")
+    if not isinstance(versions, dict):
+        return False
+    for version in versions.values():
+        if not isinstance(version, dict) or not _well_formed_path_lists(version.get("state")):
+            return False
+    fixity = inventory.get("fixity", {})
+    return isinstance(fixity, dict) and all(_well_formed_path_lists(block) for block in fixity.values())
+
+
 class InventoryValidator():
     """Class for OCFL Inventory Validator."""
 
@@ -124,6 +150,9 @@ class InventoryValidator():
         self.inventory = inventory
         self.spec_version = self.default_spec_version if force_spec_version is None else force_spec_version
         self.log.spec_version = self.spec_version
+        if not isinstance(inventory, dict):
+            self._error("E033", explanation="not a JSON object")
+            return False
         if "id" in inventory:
             iid = inventory["id"]
             if not isinstance(iid, str) or iid == "":
@@ -157,7 +186,7 @@ class InventoryValidator():
             self._error("E036c")
         elif inventory["digestAlgorithm"] == "sha512":
             pass
-        elif self.lax_digests:
+        elif self.lax_digests and isinstance(inventory["digestAlgorithm"], str):
             self.digest_algorithm = inventory["digestAlgorithm"]
         elif inventory["digestAlgorithm"] == "sha256":
             self._warning("W004")
@@ -176,6 +205,8 @@ class InventoryValidator():
                 self.content_directory = cd
                 self.content_directory_set = True
         manifest_files_correct_format = None
+        self.manifest_files = None
+        self.unnormalized_digests = set()
         if "manifest" not in inventory:
             self._error("E041a")
         else:
@@ -207,7 +238,7 @@ class InventoryValidator():
             if self.manifest_files is not None:
                 self._check_digests_present_and_used(self.manifest_files, digests_used)
         if "fixity" in inventory:
-            self._validate_fixity(inventory["fixity"], self.manifest_files)
+            self._validate_fixity(inventory["fixity"], self.manifest_files or {})
         # Success (True) if no errors added to logger
         return (self.log.num_errors - start_errors) == 0
 
@@ -225,6 +256,10 @@ class InventoryValidator():
         # Must have a subset of versions which also checks zero padding format etc.
         if not set(prior.all_versions) < set(self.all_versions):
             self._error("E066a", prior_head=prior.head)
+        elif not well_formed(self.inventory) or not well_formed(prior.inventory):
+            # Can make a comparison only if there aren't problems with the structure
+            # of either inventory, these will have been reported already
+            return False
         else:
             # Check references to files but realize that there might be different
             # digest algorithms between versions
@@ -286,7 +321,7 @@ class InventoryValidator():
             content_paths = set()
             content_directories = set()
             for digest in manifest:
-                m = re.fullmatch(self._digest_regex(), digest)
+                m = re.fullmatch(self._digest_regex(), digest, re.DOTALL)
                 if not m:
                     self._error("E025b", digest=digest, algorithm=self.digest_algorithm)  # wrong form of digest
                 elif not isinstance(manifest[digest], list):
@@ -300,6 +335,9 @@ class InventoryValidator():
                     else:
                         manifest_digests.add(norm_digest)
                     for file in manifest[digest]:
+                        if not isinstance(file, str):
+                            self._error("E042a", path=file)
+                            continue
                         manifest_files[file] = norm_digest
                         if self._check_content_path(file, content_paths, content_directories):
                             manifest_files_correct_format.append(file)
@@ -338,7 +376,7 @@ class InventoryValidator():
                 else:
                     digests_seen = set()
                     for digest in fixity_algoritm_block:
-                        m = re.fullmatch(regex, digest)
+                        m = re.fullmatch(regex, digest, re.DOTALL)
                         if not m:
                             self._error("E057b", digest=digest, algorithm=digest_algorithm)  # wrong form of digest
                         elif not isinstance(fixity_algoritm_block[digest], list):
@@ -354,7 +392,7 @@ class InventoryValidator():
                             else:
                                 digests_seen.add(norm_digest)
                             for file in fixity_algoritm_block[digest]:
-                                if file not in manifest_files:
+                                if not isinstance(file, str) or file not in manifest_files:
                                     self._error("E057d", digest=norm_digest, algorithm=digest_algorithm, path=file)
 
     def _validate_version_sequence(self, versions):
@@ -427,6 +465,9 @@ class InventoryValidator():
         digests_used = []
         for v in all_versions:
             version = versions[v]
+            if not isinstance(version, dict):
+                self._error("E048", version=v)  # Not an object so no created
+                continue
             if "created" not in version:
                 self._error("E048", version=v)  # No created
             elif not isinstance(versions[v]["created"], str):
@@ -479,7 +520,7 @@ class InventoryValidator():
         if not isinstance(state, dict):
             self._error("E050c", version=version)
         else:
-            digest_re = re.compile(self._digest_regex())
+            digest_re = re.compile(self._digest_regex(), re.DOTALL)
             for digest in state:
                 if not digest_re.fullmatch(digest):
                     self._error("E050d", version=version, digest=digest)
@@ -487,7 +528,9 @@ class InventoryValidator():
                     self._error("E050e", version=version, digest=digest)
                 else:
                     for path in state[digest]:
-                        if path in logical_paths:
+                        if not isinstance(path, str):
+                            self._error("E050e", version=version, digest=digest)
+                        elif path in logical_paths:
                             self._error("E095a", version=version, path=path)
                         else:
                             self._check_logical_path(path, version, logical_paths, logical_directories)
-- 
2.43.0


From 7df592e7f51533456b92738b834ec8622d58cc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 21/74] fix: validator gives a verdict for unreadable or
 malformed inventories

---
 ocfl/validator.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 2a70b58..db42021 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -16,7 +16,7 @@ import re
 from .constants import INVENTORY_FILENAME, SPEC_VERSIONS_SUPPORTED, \
     DEFAULT_SPEC_VERSION, DEFAULT_CONTENT_DIRECTORY
 from .digest import file_digest, normalized_digest
-from .inventory_validator import InventoryValidator
+from .inventory_validator import InventoryValidator, well_formed
 from .namaste import find_namastes
 from .fsw import fsw_openfs, fsw_walk, fsw_openfile, fsw_files_identical
 from .validation_logger import ValidationLogger
@@ -205,13 +205,16 @@ class Validator():
         except FileNotFoundError:
             self.log.error("E033", where=where, explanation="Inventory not present")
             raise ValidatorAbortException
-        except json.decoder.JSONDecodeError as e:
+        except (ValueError, RecursionError, IsADirectoryError) as e:
+            # Not JSON, not UTF-8, too deeply nested or not a file
             self.log.error("E033", where=where, explanation=str(e))
             raise ValidatorAbortException
         inv_validator = InventoryValidator(log=self.log, where=where,
                                            lax_digests=self.lax_digests,
                                            default_spec_version=self.spec_version)
         inv_validator.validate(inventory, force_spec_version=force_spec_version)
+        if not isinstance(inventory, dict):
+            raise ValidatorAbortException
         return inventory, inv_validator
 
     def validate_inventory_digest(self, inv_file, digest_algorithm, where="root"):
@@ -238,7 +241,7 @@ class Validator():
                 digest_actual = file_digest(inv_file, digest_algorithm, fs=self.obj_fs)
                 if digest_actual != digest_recorded:
                     self.log.error("E060", inv_file=inv_file, actual=digest_actual, recorded=digest_recorded, inv_digest_file=inv_digest_file)
-            except ValueError as e:  # pylint: disable=broad-except
+            except (ValueError, IsADirectoryError) as e:  # pylint: disable=broad-except
                 self.log.error("E061", description=str(e))
         else:
             self.log.error("E058b", inv_digest_file=inv_digest_file)
@@ -356,7 +359,10 @@ class Validator():
                     first_version_content_directory_set = False  # report E019 just once
                 if self.content_directory != inv_validator.content_directory:
                     self.log.error("E020", where=version_dir, root_content_directory=self.content_directory, version_content_directory=inv_validator.content_directory)
-                if "manifest" in version_inventory:
+                # Values from an inventory that isn't well formed, for which there will have
+                # been errors already, cannot be used to check others
+                version_inventory_well_formed = well_formed(version_inventory)
+                if version_inventory_well_formed:
                     # Check that all files listed in prior inventories are in manifest
                     not_seen = set(prior_manifest_digests.keys())
                     for digest in version_inventory["manifest"]:
@@ -382,7 +388,7 @@ class Validator():
                     self.root_inv_validator.validate_as_prior_version(inv_validator)
                 # Fixity blocks are independent in each version. Record all values and the versions
                 # they occur in for later checks against content
-                if "fixity" in version_inventory:
+                if version_inventory_well_formed and "fixity" in version_inventory:
                     for digest_algorithm in version_inventory["fixity"]:
                         for unnormalized_digest in version_inventory["fixity"][digest_algorithm]:
                             digest = normalized_digest(unnormalized_digest, digest_type=digest_algorithm)
-- 
2.43.0


From 5b2f0b7c50234712687d0223059438ab9da192bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 22/74] fix: validator gives a verdict for unreadable or too
 many declaration files

---
 ocfl/namaste.py   |  2 +-
 ocfl/validator.py | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/ocfl/namaste.py b/ocfl/namaste.py
index 3731959..d2e625f 100644
--- a/ocfl/namaste.py
+++ b/ocfl/namaste.py
@@ -122,7 +122,7 @@ class Namaste():
         if fsw is not None:
             try:
                 content = fsw.read_text(filepath)
-            except FileNotFoundError:
+            except (FileNotFoundError, IsADirectoryError, UnicodeDecodeError):
                 raise NamasteException("Namaste file %s cannot be read!" % (filepath))
         else:
             if not os.path.isfile(filepath):
diff --git a/ocfl/validator.py b/ocfl/validator.py
index db42021..e3db390 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -17,7 +17,7 @@ from .constants import INVENTORY_FILENAME, SPEC_VERSIONS_SUPPORTED, \
     DEFAULT_SPEC_VERSION, DEFAULT_CONTENT_DIRECTORY
 from .digest import file_digest, normalized_digest
 from .inventory_validator import InventoryValidator, well_formed
-from .namaste import find_namastes
+from .namaste import find_namastes, NamasteException
 from .fsw import fsw_openfs, fsw_walk, fsw_openfile, fsw_files_identical
 from .validation_logger import ValidationLogger
 
@@ -130,7 +130,14 @@ class Validator():
             return False
         # Object declaration, set spec version number. If there are multiple declarations,
         # look for the lastest object version then report any others as errors
-        namastes = find_namastes(0, fsw=self.obj_fs)
+        try:
+            namastes = find_namastes(0, fsw=self.obj_fs)
+        except FileNotFoundError:
+            self.log.error("E003e", path=path)
+            return False
+        except NamasteException:
+            self.log.error("E003b", files="too many", using_version=self.spec_version)
+            return False
         if len(namastes) == 0:
             self.log.error("E003a", assumed_version=self.spec_version)
         else:
-- 
2.43.0


From 5a05afd9534f3bc0f9e25c56fdf87a75feaaefeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 23/74] fix: object declaration content must match the filename
 exactly

---
 ocfl/validator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index e3db390..660d88c 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -17,7 +17,7 @@ from .constants import INVENTORY_FILENAME, SPEC_VERSIONS_SUPPORTED, \
     DEFAULT_SPEC_VERSION, DEFAULT_CONTENT_DIRECTORY
 from .digest import file_digest, normalized_digest
 from .inventory_validator import InventoryValidator, well_formed
-from .namaste import find_namastes, NamasteException
+from .namaste import find_namastes, Namaste, NamasteException
 from .fsw import fsw_openfs, fsw_walk, fsw_openfile, fsw_files_identical
 from .validation_logger import ValidationLogger
 
@@ -153,7 +153,8 @@ class Validator():
                     self.log.error("E006", filename=namaste.filename)
                 elif spec_version is None or this_file_version > spec_version:
                     spec_version = this_file_version
-                    if not namaste.content_ok(fsw=self.obj_fs):
+                    # Must match exactly, without the usual Namaste translation of characters
+                    if not Namaste(0, tvalue=namaste.tvalue, tr_func=str.strip).content_ok(fsw=self.obj_fs):
                         self.log.error("E007", filename=namaste.filename)
             if spec_version is None:
                 self.log.error("E003c", assumed_version=self.spec_version)
-- 
2.43.0


From f757ec4774f0b6bc825c56594cf4cd12a7029129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 24/74] fix: report root inventory type that doesn't match the
 object declaration

---
 ocfl/validator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 660d88c..f6b116c 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -138,6 +138,7 @@ class Validator():
         except NamasteException:
             self.log.error("E003b", files="too many", using_version=self.spec_version)
             return False
+        declared_version = None
         if len(namastes) == 0:
             self.log.error("E003a", assumed_version=self.spec_version)
         else:
@@ -159,6 +160,7 @@ class Validator():
             if spec_version is None:
                 self.log.error("E003c", assumed_version=self.spec_version)
             else:
+                declared_version = spec_version
                 self.spec_version = spec_version
                 self.log.spec_version = self.spec_version
                 if len(namastes) > 1:
@@ -172,6 +174,9 @@ class Validator():
             inventory, inv_validator = self.validate_inventory(inv_file)
             inventory_is_valid = self.log.num_errors == 0
             self.root_inv_validator = inv_validator
+            if (declared_version is not None and "type" in inventory
+                    and inv_validator.spec_version != declared_version):
+                self.log.error("E038a", where="root", expected="https://ocfl.io/" + declared_version + "/spec/#inventory", got=inventory["type"])
             all_versions = inv_validator.all_versions
             self.id = inv_validator.id
             self.content_directory = inv_validator.content_directory
-- 
2.43.0


From 14a5e10be457c11d587d741a34a55c980f6c0cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 25/74] fix: read inventory sidecar for any supported digest
 algorithm and digest case

---
 ocfl/validator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index f6b116c..44c37b2 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -246,13 +246,13 @@ class Validator():
         """
         if not self.check_digests:
             return
-        m = re.match(r""".*\.(\w+)$""", inv_digest_file)
+        m = re.match(r""".*\.([\w\-]+)$""", inv_digest_file)
         if m:
             digest_algorithm = m.group(1)
             try:
                 digest_recorded = self.read_inventory_digest(inv_digest_file)
                 digest_actual = file_digest(inv_file, digest_algorithm, fs=self.obj_fs)
-                if digest_actual != digest_recorded:
+                if digest_actual != normalized_digest(digest_recorded, digest_type=digest_algorithm):
                     self.log.error("E060", inv_file=inv_file, actual=digest_actual, recorded=digest_recorded, inv_digest_file=inv_digest_file)
             except (ValueError, IsADirectoryError) as e:  # pylint: disable=broad-except
                 self.log.error("E061", description=str(e))
@@ -533,7 +533,7 @@ class Validator():
         with fsw_openfile(inv_digest_file, "r", fs=self.obj_fs) as fh:
             line = fh.readline()
             # we ignore any following lines, could raise exception
-        m = re.match(r"""(\w+)\s+(\S+)\s*$""", line)
+        m = re.match(r"""([\w\.]+)\s+(\S+)\s*$""", line)
         if not m:
             raise ValueError("Bad inventory digest file %s, wrong format" % (inv_digest_file))
         if m.group(2) != INVENTORY_FILENAME:
-- 
2.43.0


From 6c089974b7c6601b7f3d1b55984859294fbebdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 26/74] fix: check contentDirectory against the first version
 only (E019)

---
 ocfl/validator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 44c37b2..f196644 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -323,7 +323,7 @@ class Validator():
         if len(version_dirs) == 0:
             return prior_manifest_digests, prior_fixity_digests
         first_version = version_dirs[0]
-        first_version_content_directory_set = False
+        first_version_content_directory_set = None  # not known until we see first version inventory
         last_version = version_dirs[-1]
         prev_version_dir = "NONE"  # will be set for first directory with inventory
         prev_spec_version = "1.0"  # lowest version
@@ -357,19 +357,19 @@ class Validator():
                 if self.id and "id" in version_inventory:
                     if version_inventory["id"] != self.id:
                         self.log.error("E037b", where=version_dir, root_id=self.id, version_id=version_inventory["id"])
-                if first_version:
+                if version_dir == first_version:
                     first_version_content_directory_set = inv_validator.content_directory_set
                     if not first_version_content_directory_set and self.content_directory_set:
                         self.log.error("E019", where="root")
-                        first_version_content_directory_set = False  # report E019 just once
-                elif not first_version_content_directory_set and inv_validator.content_directory_set:
+                        first_version_content_directory_set = None  # report E019 just once
+                elif first_version_content_directory_set is False and inv_validator.content_directory_set:
                     # E019 is a rather odd and specific error condition: that if
                     # the contentDirectory is set for any version it must be set
                     # the first version. It isn't clear that this is very usefully
                     # different from E020 that picks up inconsistency between ant
                     # two versions.
                     self.log.error("E019", where=version_dir)
-                    first_version_content_directory_set = False  # report E019 just once
+                    first_version_content_directory_set = None  # report E019 just once
                 if self.content_directory != inv_validator.content_directory:
                     self.log.error("E020", where=version_dir, root_content_directory=self.content_directory, version_content_directory=inv_validator.content_directory)
                 # Values from an inventory that isn't well formed, for which there will have
-- 
2.43.0


From cccb153d764614454dcb449273df998a5f4aabc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 27/74] fix: no warning for registered extensions in an object

---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index f196644..a5eeba8 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -302,7 +302,7 @@ class Validator():
         extensions.
         """
         for entry in self.obj_fs.listdir("extensions", detail=True):
-            name = entry["name"]
+            name = os.path.basename(entry["name"])
             if entry["type"] == "directory":
                 if name not in self.registered_extensions:
                     self.log.warning("W013", entry=name)
-- 
2.43.0


From 4552568353fbc969c82e8285af57bc4c8b6256d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 28/74] fix: file in place of a version's content directory is
 an error

---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index a5eeba8..1cc6d1e 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -438,7 +438,7 @@ class Validator():
                     if ((entry == INVENTORY_FILENAME)
                             or (version_dir in self.inventory_digest_files and entry == self.inventory_digest_files[version_dir])):
                         pass
-                    elif entry == self.content_directory:
+                    elif entry == self.content_directory and self.obj_fs.isdir(entrypath):
                         # Check content_directory
                         content_path = os.path.join(version_dir, self.content_directory)
                         num_content_files_in_version = 0
-- 
2.43.0


From c49933ca885eaff2a228155bb95a3f663a8f328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 29/74] fix: validator gives a verdict with digest algorithms
 that are not supported

---
 ocfl/validator.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 1cc6d1e..0540526 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -479,8 +479,10 @@ class Validator():
                         self.log.error("E092b", where="root", content_path=filepath)
                     else:
                         if self.check_digests:
-                            content_digest = file_digest(filepath, digest_type=self.digest_algorithm, fs=self.obj_fs)
-                            if content_digest != normalized_digest(digest, digest_type=self.digest_algorithm):
+                            content_digest = self.content_digest(filepath, self.digest_algorithm)
+                            if content_digest is None:
+                                self.log.error("E026a", where="root", digest=self.digest_algorithm)
+                            elif content_digest != normalized_digest(digest, digest_type=self.digest_algorithm):
                                 self.log.error("E092a", where="root", digest_algorithm=self.digest_algorithm, digest=digest, content_path=filepath, content_digest=content_digest)
                             known_digests = {self.digest_algorithm: content_digest}
                             # Are there digest values in the fixity block?
@@ -493,6 +495,13 @@ class Validator():
         if len(files_seen) > 0:
             self.log.error("E023a", where="root", extra_files=", ".join(sorted(files_seen)))
 
+    def content_digest(self, filepath, digest_algorithm):
+        """Calculate digest of content file, or None if the algorithm is not supported."""
+        try:
+            return file_digest(filepath, digest_type=digest_algorithm, fs=self.obj_fs)
+        except ValueError:
+            return None
+
     def check_additional_digests(self, filepath, known_digests, additional_digests, error_code):
         """Check all the additional digests for filepath.
 
@@ -513,8 +522,10 @@ class Validator():
                     # Don't recompute anything, just use it if we've seen it before
                     content_digest = known_digests[digest_algorithm]
                 else:
-                    content_digest = file_digest(filepath, digest_type=digest_algorithm, fs=self.obj_fs)
+                    content_digest = self.content_digest(filepath, digest_algorithm)
                     known_digests[digest_algorithm] = content_digest
+                if content_digest is None:
+                    continue
                 for digest in additional_digests[filepath][digest_algorithm]:
                     if content_digest != normalized_digest(digest, digest_type=digest_algorithm):
                         where = ",".join(additional_digests[filepath][digest_algorithm][digest])
-- 
2.43.0


From 3eeb5cb5b66e3fc305a34325004d1c253e88c693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 30/74] fix: storage root with invalid objects is not valid,
 count traversal errors per validation

---
 ocfl/storage_root.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 1981318..ecba56e 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -452,8 +452,9 @@ class StorageRoot():
             self.log.error(e.code, **e.kwargs)
             return False
         self.log.spec_version = self.spec_version
+        self.num_traversal_errors = 0
         self.num_objects, self.good_objects, self.errors = self.validate_hierarchy(validate_objects=validate_objects, check_digests=check_digests, log_warnings=log_warnings, max_errors=max_errors)
-        if self.num_traversal_errors > 0:
+        if self.num_traversal_errors > 0 or (validate_objects and self.good_objects < self.num_objects):
             valid = False
         return valid
 
-- 
2.43.0


From 49dedee660f0f237a7f791a729b2c64b70537dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 31/74] fix: report bad layout configuration as a storage root
 error

---
 ocfl/storage_root.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index ecba56e..315bc94 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -16,6 +16,7 @@ from .validator import Validator
 from .validation_logger import ValidationLogger
 
 # Specific layouts
+from .layout import LayoutException
 from .layout_registry import get_layout, layout_is_supported
 
 
@@ -264,7 +265,10 @@ class StorageRoot():
             else:
                 logging.warning("Non-canonical layout name %s, should be %s", self.layout_name, self.layout.NAME)
             # Is there a corresponding extensions dir with params in config.json?
-            self.layout.read_layout_params(root_fs=self.root_fs)
+            try:
+                self.layout.read_layout_params(root_fs=self.root_fs)
+            except LayoutException as e:
+                raise StorageRootException("E070a", root=self.root, message=str(e))
         # Other files are allowed...
         return True
 
-- 
2.43.0


From 5ba4c236eb5168a8e4ba845df2b59516dba68b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 32/74] fix: initialize storage root with spec_version given to
 StorageRoot()

---
 ocfl/storage_root.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 315bc94..4e45627 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -100,8 +100,8 @@ class StorageRoot():
         Sets self.spec_version to spec_version if given and good,
         otherwise to the default.
         """
-        if spec_version is None and self.spec_version is None:
-            spec_version = default
+        if spec_version is None:
+            spec_version = default if self.spec_version is None else self.spec_version
         if spec_version not in SPEC_VERSIONS_SUPPORTED:
             raise StorageRootException("Unsupported OCFL specification version %s requested" % (spec_version))
         self.spec_version = spec_version
-- 
2.43.0


From 112ee1d1e520cb7d204360a96211d68252049088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 33/74] fix: match the whole of object declaration names in
 storage root

---
 ocfl/storage_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 4e45627..8fb7abd 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -325,7 +325,7 @@ class StorageRoot():
                     self.traversal_error("E003d", path=dirpath)
                 elif len(zero_eqs) == 1:
                     declaration = zero_eqs[0]
-                    match = re.match(r"""0=ocfl_object_(\d+\.\d+)""", declaration)
+                    match = re.fullmatch(r"""0=ocfl_object_(\d+\.\d+)""", declaration)
                     if match and match.group(1) in SPEC_VERSIONS_SUPPORTED:
                         yield dirpath.lstrip("/")
                     elif match:
-- 
2.43.0


From 8c36abdd4020dc566d5d09dc08ed7b40813d24e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 34/74] fix: list objects in a storage root with an
 unregistered extension

---
 ocfl/storage_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 8fb7abd..e16b12d 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -354,7 +354,7 @@ class StorageRoot():
         for entry in self.root_fs.listdir("extensions", detail=True):
             name = entry["name"]
             if entry["type"] == "directory":
-                if os.path.relpath(name, "extensions") not in self.registered_extensions:
+                if self.log is not None and os.path.relpath(name, "extensions") not in self.registered_extensions:
                     self.log.warning("W901", entry=name)  # FIXME - No good warning code in spec
             else:
                 self.traversal_error("E086", entry=name)
-- 
2.43.0


From 3c0f66e2ab850d8c2b4ca062b529556e54c1e8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 35/74] fix: use layout declared in storage root in preference
 to one set before

---
 ocfl/storage_root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index e16b12d..42b4e86 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -258,6 +258,7 @@ class StorageRoot():
         # Layout file (if present)
         if self.root_fs.exists(self.layout_file):
             self.layout_name, self.layout_description = self.parse_layout_file()
+            self._layout = None  # layout in the storage root overrides any set before
             if not layout_is_supported(self.layout_name):
                 raise StorageRootException("E071", root=self.root, layout_name=self.layout_name)
             if self.layout.NAME == self.layout_name:
-- 
2.43.0


From 0e4efe605a33ed8b85f00aa20efd0fcdad74d26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 36/74] fix: clear exception for object path in storage root
 without a layout

---
 ocfl/storage_root.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 42b4e86..7a9b03b 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -173,6 +173,8 @@ class StorageRoot():
         if self.layout is None:
             self.open_root_fs()
             self.check_root_structure()
+            if self.layout is None:
+                raise StorageRootException("Cannot determine object path because no layout is specified for storage root %s" % (self.root))
         return self.layout.identifier_to_path(identifier)
 
     def initialize(self, spec_version=None, layout_params=None):
-- 
2.43.0


From 68d1267cc6ca452ad2a33e4fed5881ce6fbcdb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 37/74] fix: do not add objects to a storage root at paths
 where they would not be found

---
 ocfl/storage_root.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 7a9b03b..e5c8ef5 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -487,6 +487,14 @@ class StorageRoot():
         path = self.object_path(identifier)
         if self.root_fs.exists(path):
             raise StorageRootException("Add object failed because destination path %s already exists" % (path))
+        # Would we be able to find the object at this path?
+        elements = path.split("/")
+        if elements[0] == "extensions" or elements[0].startswith("0="):
+            raise StorageRootException("Add object failed because destination path %s is not allowed in a storage root" % (path))
+        for n in range(1, len(elements)):
+            parent = "/".join(elements[:n])
+            if self.root_fs.exists(parent) and (not self.root_fs.isdir(parent) or find_namastes(0, dir=parent, fsw=self.root_fs)):
+                raise StorageRootException("Add object failed because destination path %s is within an existing object" % (path))
         logging.debug("Copying from %s to %s", object_path, os.path.join(self.root, path))
         try:
             # Recusive copy of object to path in self.root_fs
-- 
2.43.0


From e82d8635821c33604cbc5d6c2cd712048085e278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 38/74] fix: register tuple tree layout under the name written
 to ocfl_layout.json

---
 ocfl/layout_registry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocfl/layout_registry.py b/ocfl/layout_registry.py
index 52b7ee6..ac75399 100644
--- a/ocfl/layout_registry.py
+++ b/ocfl/layout_registry.py
@@ -65,5 +65,6 @@ add_layout("0003-hash-and-id-n-tuple-storage-layout", Layout_0003_Hash_And_Id_N_
 add_layout("0003", Layout_0003_Hash_And_Id_N_Tuple)
 add_layout("nnnn-flat-quoted-storage-layout", Layout_NNNN_Flat_Quoted)
 add_layout("flat-quoted", Layout_NNNN_Flat_Quoted)
+add_layout("nnnn-tuple-tree-layout", Layout_NNNN_Tuple_Tree)
 add_layout("nnnn-tuple-tree", Layout_NNNN_Tuple_Tree)
 add_layout("nnnn-uuid-quadtree", Layout_NNNN_UUID_Quadtree)
-- 
2.43.0


From f42afd80b0a6263b7475e2046548ec3d3717f02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 39/74] fix: layouts without parameters accept configuration
 with just extensionName

---
 ocfl/layout.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocfl/layout.py b/ocfl/layout.py
index 28d5ab4..3d66e38 100644
--- a/ocfl/layout.py
+++ b/ocfl/layout.py
@@ -196,6 +196,8 @@ class Layout:
         Finally, the check_full_config method is called to check anything that
         might required all of the configuration to be known.
         """
+        if not isinstance(config, dict):
+            raise LayoutException("Storage root extension config is not a JSON object")
         # Check the extensionName if required and/or specified
         if "extensionName" not in config:
             if require_extension_name:
@@ -203,7 +205,7 @@ class Layout:
         elif config.get("extensionName") != self.NAME:
             raise LayoutException("Storage root extension config extensionName is %s, expected %s" % (config.get("extensionName"), self.NAME))
         # Read and check the parameters (ignore any extra params)
-        for key, method in self.PARAMS.items():
+        for key, method in (self.PARAMS or {}).items():
             method(config.get(key))
         # Finally, check full config
         self.check_full_config()
-- 
2.43.0


From da7fd4b00d142f36def7be032b8ae54e7302d250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 40/74] fix: strip_root() matches whole path elements

---
 ocfl/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/layout.py b/ocfl/layout.py
index 3d66e38..9d575ad 100644
--- a/ocfl/layout.py
+++ b/ocfl/layout.py
@@ -94,7 +94,7 @@ class Layout:
                 root cannot be stripped from it
         """
         root = root.rstrip(os.sep)  # ditch any trailing path separator
-        if os.path.commonprefix((path, root)) == root:
+        if root == "" or path == root or path.startswith(root + os.sep):
             return os.path.relpath(path, start=root)
         raise LayoutException("Path %s is not in root %s" % (path, root))
 
-- 
2.43.0


From 22718f2caf98336acb703ecc9f1ce9310e2ce81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 41/74] fix: uuid quadtree layout does not accept identifier
 with trailing newline

---
 ocfl/layout_nnnn_uuid_quadtree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/layout_nnnn_uuid_quadtree.py b/ocfl/layout_nnnn_uuid_quadtree.py
index 7139738..2f8c46d 100644
--- a/ocfl/layout_nnnn_uuid_quadtree.py
+++ b/ocfl/layout_nnnn_uuid_quadtree.py
@@ -83,9 +83,9 @@ class Layout_NNNN_UUID_Quadtree(Layout):
         if identifier.startswith(self.prefix):
             identifier = identifier[len(self.prefix):]
         else:
-            raise Exception("UUIDQuadtree identifier %s does not start with prefix %s" % (identifier, self.prefix))
-        match = re.match(r"""([\da-f]{4})([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})([\da-f]{4})([\da-f]{4})$""", identifier)
+            raise LayoutException("UUIDQuadtree identifier %s does not start with prefix %s" % (identifier, self.prefix))
+        match = re.fullmatch(r"""([\da-f]{4})([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})([\da-f]{4})([\da-f]{4})""", identifier)
         if not match:
-            raise Exception("UUIDQuadtree identifier %s not valid" % (identifier))
+            raise LayoutException("UUIDQuadtree identifier %s not valid" % (identifier))
         return os.path.join(match.group(1), match.group(2), match.group(3), match.group(4),
                             match.group(5), match.group(6), match.group(7), match.group(8))
-- 
2.43.0


From a384c7f3a7e3edf0f07fc6d65a2d76cd2e6df418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 42/74] fix: layouts refuse identifiers that do not give a path
 within the storage root

---
 ocfl/layout_0003_hash_and_id_n_tuple.py | 6 ++++++
 ocfl/layout_nnnn_flat_quoted.py         | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ocfl/layout_0003_hash_and_id_n_tuple.py b/ocfl/layout_0003_hash_and_id_n_tuple.py
index 8fdbd78..57d2010 100644
--- a/ocfl/layout_0003_hash_and_id_n_tuple.py
+++ b/ocfl/layout_0003_hash_and_id_n_tuple.py
@@ -183,7 +183,13 @@ class Layout_0003_Hash_And_Id_N_Tuple(Layout):
             then it is tuncated at 100 characters and then "-" and the digest
             appended (so it would be 165 chars with sha256).
         6. The encapsulation directory name is joined to the end of the path.
+
+        Raises:
+            LayoutException: if the identifier is blank as there would be no
+                encapsulation directory
         """
+        if identifier == "":
+            raise LayoutException("Identifier '%s' unsafe for %s layout" % (identifier, self.NAME))
         return _id_to_path(identifier=identifier,
                            digest_algorithm=self.digest_algorithm,
                            tuple_size=self.tuple_size,
diff --git a/ocfl/layout_nnnn_flat_quoted.py b/ocfl/layout_nnnn_flat_quoted.py
index 3b1c92a..08caae7 100644
--- a/ocfl/layout_nnnn_flat_quoted.py
+++ b/ocfl/layout_nnnn_flat_quoted.py
@@ -23,12 +23,12 @@ class Layout_NNNN_Flat_Quoted(Layout):
 
         Raises:
             LayoutException: if the identifier cannot be converted to a valid
-            object path. Currently just a check for blank
+            object path. Checks for blank, '.' and '..'
 
         Uses Layout.encode() to generate a safe directory name from any
         identifier. Length is not checked but could cause operating system
         errors.
         """
-        if identifier == "":
+        if identifier in ("", ".", ".."):
             raise LayoutException("Identifier '%s' unsafe for %s layout" % (identifier, self.NAME))
         return self.encode(identifier)
-- 
2.43.0


From e47669e03038f620b3f7736596eb438cfcce8570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 43/74] fix: Inventory does not share data with the dict it was
 created from

---
 ocfl/inventory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory.py b/ocfl/inventory.py
index 0cbd846..b8570e5 100644
--- a/ocfl/inventory.py
+++ b/ocfl/inventory.py
@@ -132,7 +132,7 @@ class Inventory():  # pylint: disable=too-many-public-methods
         elif isinstance(data, Inventory):
             self.data = copy.deepcopy(data.data)
         elif isinstance(data, dict):
-            self.data = data
+            self.data = copy.deepcopy(data)
         else:
             raise InventoryException("Bad data type supplied to Inventory() creator, " + str(type(data)))
 
@@ -411,7 +411,7 @@ class Inventory():  # pylint: disable=too-many-public-methods
         if metadata is None:
             self.data["versions"][vdir] = {}
         elif isinstance(metadata, dict):
-            self.data["versions"][vdir] = metadata
+            self.data["versions"][vdir] = copy.deepcopy(metadata)
         else:
             self.data["versions"][vdir] = metadata.as_dict()
         if state is not None:
-- 
2.43.0


From adff5292fe5b4745b490bc2e969e28ed2757b9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 44/74] fix: two writers cannot both create the same new
 version

---
 ocfl/object.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 68dc941..07713ac 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -576,8 +576,10 @@ class Object():  # pylint: disable=too-many-public-methods
         if new_version.created is None:
             new_version.created = VersionMetadata().as_dict()["created"]
         self._check_inventory_to_write(inventory)
-        # Make new version directory
-        self.obj_fs.makedir(inventory.head)
+        # Make new version directory. Must be created here and not already exist, even if
+        # another process is adding the same version (makedir that might also create
+        # parent directories does not guarantee this)
+        self.obj_fs.makedir(inventory.head, create_parents=False)
         # Copy files into this version
         for (objpath, srcpath) in new_version.files_to_copy.items():
             self.copy_into_object(new_version.src_fs, srcpath, objpath, create_dirs=True)
-- 
2.43.0


From a51231b59e5705a251493d4acb9927785feaa1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 45/74] fix: match the whole of version directory names

---
 ocfl/object_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/object_utils.py b/ocfl/object_utils.py
index dfc98ed..3759698 100755
--- a/ocfl/object_utils.py
+++ b/ocfl/object_utils.py
@@ -51,7 +51,7 @@ def next_version_directory(vdir):
     Raises an ObjectExtension if the format of version cannot be understood
     or if there is overflow of a zero-padded form.
     """
-    m = re.match(r"""v((\d)\d*)$""", vdir)
+    m = re.fullmatch(r"""v(([0-9])[0-9]*)""", vdir)
     if not m:
         raise ObjectException("Bad version directory '%s'" % vdir)
     next_n = int(m.group(1)) + 1
@@ -150,7 +150,7 @@ def find_path_type(path):
     # Look at the first 0= Namaste file that is of OCFL form to determine type, if there are
     # multiple declarations this will be caught later
     for namaste in namastes:
-        m = re.match(r"""ocfl(_object)?_(\d+\.\d+)$""", namaste.tvalue)
+        m = re.fullmatch(r"""ocfl(_object)?_(\d+\.\d+)""", namaste.tvalue)
         if m:
             return "root" if m.group(1) is None else "object"
     return "unrecognized 0= declaration file or files (first is %s)" % (namastes[0].tvalue)
@@ -164,7 +164,7 @@ def parse_version_directory(dirname):
 
     Returns the integer version number from this version directory name.
     """
-    m = re.match(r"""v(\d{1,5})$""", dirname)
+    m = re.fullmatch(r"""v([0-9]{1,5})""", dirname)
     if not m:
         raise ObjectException("Bad version directory name: %s" % (dirname))
     v = int(m.group(1))
-- 
2.43.0


From 0c5f4ae953d02b17d7a67616cfd4f45597072904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 46/74] fix: command line validation of objects and roots has
 non-zero exit status if invalid

---
 ocfl-object.py | 3 ++-
 ocfl-root.py   | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/ocfl-object.py b/ocfl-object.py
index 5fefeaf..9ad7160 100755
--- a/ocfl-object.py
+++ b/ocfl-object.py
@@ -191,7 +191,8 @@ def do_object_operation(args):
         print("Object tree" + (" for %s" % (obj.id) if obj.id is not None else ""))
         print(obj.tree(objdir=args.objdir))
     elif args.cmd == "validate":
-        validate_object(obj, objdir=args.objdir)
+        if not validate_object(obj, objdir=args.objdir):
+            sys.exit(1)
     elif args.cmd == "extract":
         if args.logical_path:
             if args.dstbag:
diff --git a/ocfl-root.py b/ocfl-root.py
index 810b33d..f3f8913 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -58,7 +58,7 @@ def parse_arguments():
                                  help="validate each object in the storage root (MAY TAKE TIME)")
     validate_parser.add_argument("--check-digests", action="store_true", default=False,
                                  help="if validating each object, also check all digest (MAY TAKE LOTS OF TIME)")
-    validate_parser.add_argument("--max_errors", default=100,
+    validate_parser.add_argument("--max_errors", type=int, default=100,
                                  help="maximum number of errors to record/show")
 
     add_parser = subparsers.add_parser("add", help="Add object at --src to the storage root")
@@ -128,6 +128,7 @@ def validate(store, args):
         print("Storage root %s is VALID" % (store.root))
     else:
         print("Storage root %s is INVALID" % (store.root))
+    return valid
 
 
 def get_storage_root(args):
@@ -157,7 +158,8 @@ def do_store_operation(args):
             print("%s -- id=%s" % (dirpath, identifier))
         print("Found %d OCFL Objects under root %s" % (store.num_objects, store.root))
     elif args.cmd == "validate":
-        validate(store, args)
+        if not validate(store, args):
+            sys.exit(1)
     elif args.cmd == "add":
         if not args.src:
             raise ocfl.StorageRootException("Must specify object path with --src")
@@ -178,7 +180,7 @@ def do_store_operation(args):
         else:
             obj = ocfl.Object(identifier=args.id)
             if args.cmd == "show":
-                logging.warning("Object tree\n%s", obj.tree(objdir=objdir))
+                logging.warning("Object tree\n%s", obj.tree(objdir=os.path.join(store.root, objdir)))
             else:
                 logging.error("validate not implemented")
     else:
-- 
2.43.0


From da33c51e1bb2e3b1bb4ef1cf51f86ed73c78b757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 47/74] fix: first version with no files has an empty state
 block so that it can be written

---
 ocfl/new_version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 2b7ecc6..3a78474 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -158,7 +158,7 @@ class NewVersion():
             for fixity_type in fixity:
                 inventory.add_fixity_type(fixity_type)
         #
-        inventory.add_version(metadata=metadata)  # also sets head "v1"
+        inventory.add_version(metadata=metadata, state={})  # also sets head "v1"
         if digest_algorithm is None:
             digest_algorithm = DEFAULT_DIGEST_ALGORITHM
         inventory.digest_algorithm = digest_algorithm
-- 
2.43.0


From 90603b3edb448f82a64b4b2a3fc29c61f266f87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:22 +0000
Subject: [PATCH 48/74] fix: prior inventory with digests in different case is
 not reported as having a different state

---
 ocfl/inventory_validator.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 780e720..1d5d1bc 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -627,6 +627,11 @@ class InventoryValidator():
         content_directories.add("/".join([m.group(1), m.group(2)] + elements[0:-1]))
         return True
 
+    def _normalized_state(self, inventory, version):
+        """State block for version of inventory with normalized digests."""
+        state = inventory["versions"][version]["state"]
+        return {normalized_digest(digest, self.digest_algorithm): paths for digest, paths in state.items()}
+
     def _compare_states_for_version(self, prior, version):
         """Compare state blocks for version between self and prior.
 
@@ -640,10 +645,11 @@ class InventoryValidator():
         While the mapping checks in validate_as_prior_version(..) do all that is
         necessary to detect an error, the additional errors that may be generated
         here provide more detailed diagnostics in the case that the digest
-        algorithm is the same across versions being compared.
+        algorithm is the same across versions being compared. The same digest
+        might be written with different case in different inventories.
         """
-        self_state = self.inventory["versions"][version]["state"]
-        prior_state = prior.inventory["versions"][version]["state"]
+        self_state = self._normalized_state(self.inventory, version)
+        prior_state = self._normalized_state(prior.inventory, version)
         for digest in set(self_state.keys()).union(prior_state.keys()):
             if digest not in prior_state:
                 self._error("E066d", version=version, prior_head=prior.head,
-- 
2.43.0


From d47556c7b2ce8ed7f2eebfef3ddee72c535792ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:51 +0000
Subject: [PATCH 49/74] fix: open local files given by absolute path without a
 filesystem

---
 ocfl/fsw.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index 672f6ba..075aa4a 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -303,6 +303,8 @@ def fsw_openfile(filepath, mode="rb", fs=None, **kwargs):
 
     Returns open fs filehandle.
     """
+    if fs is None and os.path.isabs(filepath):
+        fs = LocalFileSystem()  # not relative to the current working directory
     fs = _fsw_or_local(fs)
     return fs.open(filepath, mode, **kwargs)
 
@@ -318,8 +320,7 @@ def fsw_readtext(filepath, fs=None):
     Returns:
         str: the text contents of the file.
     """
-    fs = _fsw_or_local(fs)
-    with fs.open(filepath, "r") as fh:
+    with fsw_openfile(filepath, "r", fs=fs) as fh:
         text = fh.read()
     return text
 
-- 
2.43.0


From fc54a84ba416bb29630a8490a796f5e50b71a105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:20 +0000
Subject: [PATCH 50/74] fix: list objects in a storage root with an object
 whose inventory can't be read

---
 ocfl/object.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 07713ac..2bdf54e 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -14,7 +14,7 @@ import logging
 
 from .constants import INVENTORY_FILENAME, DEFAULT_SPEC_VERSION, DEFAULT_CONTENT_DIRECTORY
 from .digest import file_digest
-from .inventory import Inventory
+from .inventory import Inventory, InventoryException
 from .inventory_validator import InventoryValidator
 from .new_version import NewVersion
 from .object_utils import parse_version_directory, ObjectException
@@ -875,5 +875,7 @@ class Object():  # pylint: disable=too-many-public-methods
         try:
             inventory = self.parse_inventory()
             return inventory.id
-        except ObjectException:
+        except (ObjectException, InventoryException, FileNotFoundError,
+                IsADirectoryError, ValueError, RecursionError):
+            # Missing inventory, not JSON, or not a valid inventory
             return failure_value
-- 
2.43.0


From 7b5d135365b6fb5f9bce9533e494550e64fd8870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:06 +0000
Subject: [PATCH 51/74] fix: layout configurations do not accept true or false
 as numbers

---
 ocfl/layout_0003_hash_and_id_n_tuple.py | 4 ++--
 ocfl/layout_nnnn_tuple_tree.py          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/layout_0003_hash_and_id_n_tuple.py b/ocfl/layout_0003_hash_and_id_n_tuple.py
index 57d2010..a82913b 100644
--- a/ocfl/layout_0003_hash_and_id_n_tuple.py
+++ b/ocfl/layout_0003_hash_and_id_n_tuple.py
@@ -110,7 +110,7 @@ class Layout_0003_Hash_And_Id_N_Tuple(Layout):
         """
         if value is None:
             raise LayoutException("tupleSize parameter must be specified")
-        if not isinstance(value, int) or value < 0 or value > 32:
+        if not isinstance(value, int) or isinstance(value, bool) or value < 0 or value > 32:
             raise LayoutException("tupleSize parameter must be aninteger between 0 and 32 inclusive")
         self.tuple_size = value
 
@@ -134,7 +134,7 @@ class Layout_0003_Hash_And_Id_N_Tuple(Layout):
         """
         if value is None:
             raise LayoutException("numberOfTuples parameter must be specified")
-        if not isinstance(value, int) or value < 0 or value > 32:
+        if not isinstance(value, int) or isinstance(value, bool) or value < 0 or value > 32:
             raise LayoutException("numberOfTuples parameter must be aninteger between 0 and 32 inclusive")
         self.number_of_tuples = value
 
diff --git a/ocfl/layout_nnnn_tuple_tree.py b/ocfl/layout_nnnn_tuple_tree.py
index 1b26994..ce98aa9 100644
--- a/ocfl/layout_nnnn_tuple_tree.py
+++ b/ocfl/layout_nnnn_tuple_tree.py
@@ -57,7 +57,7 @@ class Layout_NNNN_Tuple_Tree(Layout):
         """
         if value is None:
             raise LayoutException("tupleSize parameter must be specified")
-        if not isinstance(value, int) or value < 2 or value > 6:
+        if not isinstance(value, int) or isinstance(value, bool) or value < 2 or value > 6:
             raise LayoutException("tupleSize parameter must be an integer between 2 and 6 inclusive")
         self.tuple_size = value
 
-- 
2.43.0


From 26db645ba0698213f14404c3d90d277c0af9a5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:43 +0000
Subject: [PATCH 52/74] fix: validation of an inventory in a directory that
 doesn't exist gives a verdict

---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 2bdf54e..54dddc5 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -722,7 +722,7 @@ class Object():  # pylint: disable=too-many-public-methods
             (inv_dir, inv_file) = os.path.split(path)
             validator.obj_fs = fsw_openfs(inv_dir, create=False)
             validator.validate_inventory(inv_file, where="standalone", force_spec_version=force_spec_version)
-        except FswException:
+        except (FswException, FileNotFoundError):
             validator.log.error("E033", where="standalone", explanation="failed to open directory")
         except ValidatorAbortException:
             pass
-- 
2.43.0


From f24cb2381d259fe4b649486bfde9a9b57a003da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:43 +0000
Subject: [PATCH 53/74] fix: validator gives a verdict for a storage root that
 isn't there or has too many declaration files

---
 ocfl/storage_root.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index e5c8ef5..2835ac0 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -9,7 +9,7 @@ import os.path
 import re
 
 from .constants import DEFAULT_SPEC_VERSION, SPEC_VERSIONS_SUPPORTED
-from .namaste import find_namastes, Namaste
+from .namaste import find_namastes, Namaste, NamasteException
 from .object import Object
 from .fsw import fsw_openfs, fsw_walk, fsw_opendir_as_fs, fsw_copydir
 from .validator import Validator
@@ -236,7 +236,12 @@ class StorageRoot():
         Assumes that self.root_fs filesystem is available to read from.
         """
         # Storage root declaration
-        namastes = find_namastes(0, fsw=self.root_fs)
+        try:
+            namastes = find_namastes(0, fsw=self.root_fs)
+        except FileNotFoundError:
+            raise StorageRootException("E069a", root=self.root)
+        except NamasteException:
+            raise StorageRootException("E069b", root=self.root)
         if len(namastes) == 0:
             raise StorageRootException("E069a", root=self.root)
         if len(namastes) > 1:
-- 
2.43.0


From 5e55c60b08230fce6fc68517404fb74a53503dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:36 +0000
Subject: [PATCH 54/74] fix: validator used for several objects gives a verdict
 for each

---
 ocfl/validator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 0540526..cfb78e9 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -119,6 +119,7 @@ class Validator():
         when validating a storage root, for example.
         """
         self.initialize()
+        prior_errors = self.log.num_errors  # from any objects validated before
         try:
             if isinstance(path, str):
                 self.obj_fs = fsw_openfs(path)
@@ -172,7 +173,7 @@ class Validator():
             return False
         try:
             inventory, inv_validator = self.validate_inventory(inv_file)
-            inventory_is_valid = self.log.num_errors == 0
+            inventory_is_valid = self.log.num_errors == prior_errors
             self.root_inv_validator = inv_validator
             if (declared_version is not None and "type" in inventory
                     and inv_validator.spec_version != declared_version):
@@ -192,7 +193,7 @@ class Validator():
                 self.validate_content(inventory, all_versions, prior_manifest_digests, prior_fixity_digests)
         except ValidatorAbortException:
             pass
-        return self.log.num_errors == 0
+        return self.log.num_errors == prior_errors
 
     def validate_inventory(self, inv_file, where="root", force_spec_version=None):
         """Validate a given inventory file, record errors with self.log.error().
-- 
2.43.0


From 5cc49a1d35f427d6a1d799bd2bbecdfd45f89d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:40 +0000
Subject: [PATCH 55/74] fix: uuid quadtree layout accepts only ASCII digits

---
 ocfl/layout_nnnn_uuid_quadtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/layout_nnnn_uuid_quadtree.py b/ocfl/layout_nnnn_uuid_quadtree.py
index 2f8c46d..6f1e440 100644
--- a/ocfl/layout_nnnn_uuid_quadtree.py
+++ b/ocfl/layout_nnnn_uuid_quadtree.py
@@ -84,7 +84,7 @@ class Layout_NNNN_UUID_Quadtree(Layout):
             identifier = identifier[len(self.prefix):]
         else:
             raise LayoutException("UUIDQuadtree identifier %s does not start with prefix %s" % (identifier, self.prefix))
-        match = re.fullmatch(r"""([\da-f]{4})([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})([\da-f]{4})([\da-f]{4})""", identifier)
+        match = re.fullmatch(r"""([0-9a-f]{4})([0-9a-f]{4})\-([0-9a-f]{4})\-([0-9a-f]{4})\-([0-9a-f]{4})\-([0-9a-f]{4})([0-9a-f]{4})([0-9a-f]{4})""", identifier)
         if not match:
             raise LayoutException("UUIDQuadtree identifier %s not valid" % (identifier))
         return os.path.join(match.group(1), match.group(2), match.group(3), match.group(4),
-- 
2.43.0


From cb8078c32ebc503098595b294b7a18a5901e8fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:05 +0000
Subject: [PATCH 56/74] fix: do not create the destination for a file that is
 not there to extract

---
 ocfl/object.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 54dddc5..c67bd87 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -813,31 +813,26 @@ class Object():  # pylint: disable=too-many-public-methods
         exist.
         """
         inv, version = self._extract_setup(objdir, version)
+        # Find the specified file
+        manifest = inv.manifest
+        state = inv.version(version).state
+        for (digest, logical_files) in state.items():
+            if logical_path in logical_files:
+                existing_file = manifest[digest][0]  # First entry with the digest, there could be > 1
+                break
+        else:
+            raise ObjectException("Logical path %s not found in %s" % (logical_path, version))
         # Check the destination
         try:
             dst_fs = fsw_openfs(dstdir, create=True)
         except FileNotFoundError as e:
             raise ObjectException("Destination parent directory does not exist or could not be opened (%s)" % (e))
-        # Now extract...
         basename = os.path.basename(logical_path)
         if dst_fs.exists(basename):
             raise ObjectException("Target file %s already exists in %s, aborting!" % (basename, dstdir))
-        manifest = inv.manifest
-        state = inv.version(version).state
-        # Extract the specified file
-        copied = False
-        for (digest, logical_files) in state.items():
-            existing_file = manifest[digest][0]  # First entry with the digest, there could be > 1
-            for logical_file in logical_files:
-                if logical_file == logical_path:
-                    logging.debug("Copying %s -> %s", digest, basename)
-                    fsw_copyfile(self.obj_fs, existing_file, dst_fs, basename)
-                    copied = True
-                    break
-            if copied:
-                break
-        else:
-            raise ObjectException("Logical path %s not found in %s" % (logical_path, version))
+        # Now extract...
+        logging.debug("Copying %s -> %s", digest, basename)
+        fsw_copyfile(self.obj_fs, existing_file, dst_fs, basename)
         return VersionMetadata(inventory=inv, version=version)
 
     def parse_inventory(self):
-- 
2.43.0


From 52f32b1bb32fa583953aeb8a6174568070144a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:05 +0000
Subject: [PATCH 57/74] fix: accept a trailing slash in the path of a directory
 to be created

---
 ocfl/storage_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 2835ac0..530f1d2 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -199,7 +199,7 @@ class StorageRoot():
             self.layout.check_and_set_layout_params(config=config, require_extension_name=False)
         self.check_spec_version(spec_version=spec_version)
         # Now create the storage root
-        (parent, root_dir) = os.path.split(self.root)
+        (parent, root_dir) = os.path.split(self.root.rstrip("/"))
         parent_fs = fsw_openfs(parent)
         if parent_fs.exists(root_dir):
             raise StorageRootException("OCFL storage root %s already exists, aborting!" % (self.root))
-- 
2.43.0


From 08370a8472195afd122d4d1b19cd5bb9603f557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:05 +0000
Subject: [PATCH 58/74] fix: describe a directory with too many declarations
 rather than raise an exception

---
 ocfl/object_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ocfl/object_utils.py b/ocfl/object_utils.py
index 3759698..b8be709 100755
--- a/ocfl/object_utils.py
+++ b/ocfl/object_utils.py
@@ -4,7 +4,7 @@ import os.path
 import re
 
 from ._version import __version__
-from .namaste import find_namastes
+from .namaste import find_namastes, NamasteException
 from .fsw import fsw_openfs
 
 
@@ -144,7 +144,10 @@ def find_path_type(path):
         if fsw.isdir(filename):
             return "directory that could not be opened as a filesystem, this should not happen"  # pragma: no cover
         return "file"
-    namastes = find_namastes(0, fsw=fsw)
+    try:
+        namastes = find_namastes(0, fsw=fsw)
+    except NamasteException as e:
+        return "directory with too many 0= declaration files (" + str(e) + ")"
     if len(namastes) == 0:
         return "no 0= declaration file"
     # Look at the first 0= Namaste file that is of OCFL form to determine type, if there are
-- 
2.43.0


From 846094cad989b910d1ee69895e11ae96f281fcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:16 +0000
Subject: [PATCH 59/74] fix: open a directory to be created also if given with
 a trailing slash

---
 ocfl/fsw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index 075aa4a..929e1f6 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -147,7 +147,7 @@ def fsw_openfs(fs_url, create=False, exists_ok=True):
     if create:
         # Split path into the head that we open, and the tail that we
         # create
-        (path, create_dir) = os.path.split(path)
+        (path, create_dir) = os.path.split(path.rstrip("/") or path)
 
     if method == "file":
         # We just have a local file path, assume this is not URI escaped
-- 
2.43.0


From 575a86fefcfc1ce31b625fbb4c5ec29e7df8cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:16 +0000
Subject: [PATCH 60/74] fix: copy from filesystems that do not take a leading
 slash

---
 ocfl/fsw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index 929e1f6..a8fce69 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -404,7 +404,7 @@ def fsw_copydir(src_fs, src_path, dst_fs, dst_path):
         raise FswException("Destination directory (%s) for copydir already exists!" % (dst_path))
     dst_fs.makedirs(dst_path)
     for filepath in fsw_walk_files(src_fs, src_path):
-        src_filepath = os.path.join(src_path, filepath)
+        src_filepath = os.path.join(src_path.lstrip("/"), filepath)
         dst_filepath = os.path.join(dst_path, filepath)
         dst_filedir = os.path.dirname(dst_filepath)
         if dst_filedir != dst_path and not dst_fs.exists(dst_filedir):
-- 
2.43.0


From 97ea623ee3aef3bcd19d4b2b72c3cdc93b02df26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:32 +0000
Subject: [PATCH 61/74] fix: show notes more than one sidecar in a version
 directory

---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index c67bd87..cd58b07 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -644,7 +644,7 @@ class Object():  # pylint: disable=too-many-public-methods
                     elif v_entry.startswith(INVENTORY_FILENAME + "."):
                         if seen_v_sidecar:
                             v_note += "<--- multiple inventory digests?"
-                            seen_v_sidecar = True
+                        seen_v_sidecar = True
                     elif v_entry == self.content_directory:
                         num_files = 0
                         for (v_dirpath, v_dirs, v_files) in self.obj_fs.walk(os.path.join(entry, v_entry)):  # pylint: disable=unused-variable
-- 
2.43.0


From 660f9d0cbc17917d36219f3ff5a7f31eb5b12df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:32 +0000
Subject: [PATCH 62/74] fix: fixity block errors name the digest algorithm at
 fault

---
 ocfl/inventory_validator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 1d5d1bc..7ddf4ba 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -365,14 +365,14 @@ class InventoryValidator():
                     regex = digest_regex(digest_algorithm)
                 except ValueError:
                     if not self.lax_digests:
-                        self._error("E056b", algorithm=self.digest_algorithm)
+                        self._error("E056b", algorithm=digest_algorithm)
                         continue
                     # Match anything
                     regex = r"""^.*$"""
                     known_digest = False
                 fixity_algoritm_block = fixity[digest_algorithm]
                 if not isinstance(fixity_algoritm_block, dict):
-                    self._error("E057a", algorithm=self.digest_algorithm)
+                    self._error("E057a", algorithm=digest_algorithm)
                 else:
                     digests_seen = set()
                     for digest in fixity_algoritm_block:
-- 
2.43.0


From 68e32058a02197764c260b2b85f051384264cd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:32 +0000
Subject: [PATCH 63/74] fix: descriptions of validation codes E011, E052, E053,
 E070 and E092

---
 ocfl/data/validation-errors.json | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ocfl/data/validation-errors.json b/ocfl/data/validation-errors.json
index 65fff9e..a44ca2d 100644
--- a/ocfl/data/validation-errors.json
+++ b/ocfl/data/validation-errors.json
@@ -94,6 +94,12 @@
        "en": "OCFL Object %s inventory versions block includes an out-of-sequence version"
     }
   },
+  "E011": {
+    "params": ["where"],
+    "description": {
+       "en": "OCFL Object %s inventory versions block includes a version that does not follow the zero-padding of the first version"
+    }
+  },
   "E015": {
     "params": ["where", "entry"],
     "description": {
@@ -360,13 +366,13 @@
   "E052": {
     "params": ["where", "version", "path"],
     "description": {
-       "en": "OCFL Object %s inventory %s version block state block includes an invalid path %s that starts or ends with /"
+       "en": "OCFL Object %s inventory %s version block state block includes an invalid path %s that includes . .. or //"
     }
   },
   "E053": {
     "params": ["where", "version", "path"],
     "description": {
-       "en": "OCFL Object %s inventory %s version block state block includes an invalid path %s that includes . .. or //"
+       "en": "OCFL Object %s inventory %s version block state block includes an invalid path %s that starts or ends with /"
     }
   },
   "E054a": {
@@ -531,15 +537,15 @@
     }
   },
   "E070b": {
-    "params": ["root", "message"],
+    "params": ["root"],
     "description": {
       "en": "OCFL Storage Root %s has an ocfl_layout.json file that isn't a JSON object"
     }
   },
   "E070c": {
-    "params": ["root", "message"],
+    "params": ["root"],
     "description": {
-      "en": "OCFL Storage Root %s Storage root %s has layout file doesn't have required extension and description string entries"
+      "en": "OCFL Storage Root %s has an ocfl_layout.json file that doesn't have the required extension and description string entries"
     }
   },
   "E071": {
@@ -581,7 +587,7 @@
        "en": "NOTE - E090 is a processing instruction and can't be tested for"
     }
   },
-  "E091": {
+  "E092": {
     "params": ["where", "digest"],
     "description": {
        "en": "OCFL Object %s inventory manifest file list for digest %s is not a JSON array"
-- 
2.43.0


From 36900717997f0dc216d435dc909b4d4bbff09617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:32 +0000
Subject: [PATCH 64/74] fix: report storage root of another specification
 version with its own error code

---
 ocfl/storage_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 530f1d2..b6c944c 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -255,7 +255,7 @@ class StorageRoot():
             raise StorageRootException("E069c", root=self.root,
                                        namaste_file=namastes[0].filename)
         if self.spec_version is not None and self.spec_version != spec_version:
-            raise StorageRootException("E069c", root=self.root,
+            raise StorageRootException("E069d", root=self.root,
                                        declared_spec_version=spec_version,
                                        expected_spec_version=self.spec_version)
         self.spec_version = spec_version
-- 
2.43.0


From 85af52282ba270a28c1e688e28c42da8b8ed2196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:26 +0000
Subject: [PATCH 65/74] fix: build checks all versions before writing anything

---
 ocfl/object.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index cd58b07..119e640 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -324,11 +324,9 @@ class Object():  # pylint: disable=too-many-public-methods
         """
         if self.id is None:
             raise ObjectException("Can't build object, identifier is not set!")
-        if objdir is not None:
-            self._open_new_obj_fs(objdir)
-        num_versions = 0
         src_fs = fsw_openfs(srcdir)
         inventory = None
+        to_write = []  # tuples (NewVersion, Inventory), one for each version
         # Create each version of the object
         for (vdir, metadata) in self.version_dirs_and_metadata(src_fs, versions_metadata):
             if inventory is None:
@@ -353,19 +351,22 @@ class Object():  # pylint: disable=too-many-public-methods
             # Add content, everything in srcdir
             nv.add_from_srcdir()
             inventory = nv.inventory
-            num_versions += 1
             if objdir is not None:
                 self._check_inventory_to_write(inventory)
-                self.write_inventory_and_sidecar(inventory, inventory.head)
+                # The next version will extend this inventory, need a copy as it is now
+                to_write.append((nv, copy.deepcopy(inventory)))
+        # Write the object only when all versions are known to be good
+        if objdir is not None:
+            self._open_new_obj_fs(objdir)
+            for (nv, v_inventory) in to_write:
+                self.write_inventory_and_sidecar(v_inventory, v_inventory.head)
                 # Copy files into this version
                 for (objpath, srcpath) in nv.files_to_copy.items():
                     self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
-        # Finally populate the object root
-        if objdir is not None:
-            # Write object declaration, inventory and sidecar
+            # Finally populate the object root, write object declaration, inventory and sidecar
             self.write_object_declaration()
             self.write_inventory_and_sidecar(inventory)
-            logging.info("Built object %s at %s with %s versions", self.id, objdir, num_versions)
+            logging.info("Built object %s at %s with %s versions", self.id, objdir, len(to_write))
         # Whether object written or not, return the last inventory
         return inventory
 
-- 
2.43.0


From 6b56b3a03acc2f05d729fb008ee1b581b42e33b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:08 +0000
Subject: [PATCH 66/74] fix: storage root uses lax_digests setting when adding
 and listing objects

---
 ocfl/storage_root.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index b6c944c..58c7129 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -383,7 +383,7 @@ class StorageRoot():
         for dirpath in self.object_paths():
             obj_fs = fsw_opendir_as_fs(fs=self.root_fs, path=dirpath)
             # Parse inventory to extract id
-            identifier = Object(obj_fs=obj_fs).id_from_inventory()
+            identifier = Object(obj_fs=obj_fs, lax_digests=self.lax_digests).id_from_inventory()
             self.num_objects += 1
             yield (dirpath, identifier)
             # FIXME - maybe do some more stuff in here
@@ -485,7 +485,7 @@ class StorageRoot():
         self.open_root_fs()
         self.check_root_structure()
         # Sanity check
-        o = Object(path=object_path)
+        o = Object(path=object_path, lax_digests=self.lax_digests)
         inventory = o.parse_inventory()
         identifier = inventory.id
         # Now copy
-- 
2.43.0


From 28e379261e525a76bde3f9b66b6391c46d5db3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:24 +0000
Subject: [PATCH 67/74] fix: query parameters of S3 URL are not part of the
 name of the directory to create

fsw_openfs(..., create=True) took off the last part of the path before the
query parameters, so that the directory was created with the query in its name
and the parameters were not used.
---
 ocfl/fsw.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index a8fce69..02e1bb1 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -144,6 +144,10 @@ def fsw_openfs(fs_url, create=False, exists_ok=True):
         method = parts[0]
         path = parts[1]
 
+    if method == "s3":
+        # Any query parameters are not part of the path
+        path, params = _fsw_s3_urlparse(path)
+
     if create:
         # Split path into the head that we open, and the tail that we
         # create
@@ -166,7 +170,6 @@ def fsw_openfs(fs_url, create=False, exists_ok=True):
         # Note that we assume credentials are set up such that botocore can pick them
         # up from the environment (e.g. in ~/.aws/credentials or other places per
         # https://github.com/boto/botocore)
-        path, params = _fsw_s3_urlparse(path)
         fs = S3FileSystem(**params)
         # Check that we can access the specified bucket/path and give a helpful error on
         # faulire. Otherwise error will only be thrown from some later attempt to access
-- 
2.43.0


From 2b886e671fced043486382f2fcce90e7d6cb33d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:24 +0000
Subject: [PATCH 68/74] fix: storage root can be initialized on storage without
 directories

On S3 there is nothing at the root after makedir, so that opening it by its
path failed. Use the filesystem for the directory just created.
---
 ocfl/storage_root.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 58c7129..48dbbc9 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -11,7 +11,7 @@ import re
 from .constants import DEFAULT_SPEC_VERSION, SPEC_VERSIONS_SUPPORTED
 from .namaste import find_namastes, Namaste, NamasteException
 from .object import Object
-from .fsw import fsw_openfs, fsw_walk, fsw_opendir_as_fs, fsw_copydir
+from .fsw import fsw_openfs, fsw_walk, fsw_opendir_as_fs, fsw_copydir, FswException
 from .validator import Validator
 from .validation_logger import ValidationLogger
 
@@ -199,12 +199,10 @@ class StorageRoot():
             self.layout.check_and_set_layout_params(config=config, require_extension_name=False)
         self.check_spec_version(spec_version=spec_version)
         # Now create the storage root
-        (parent, root_dir) = os.path.split(self.root.rstrip("/"))
-        parent_fs = fsw_openfs(parent)
-        if parent_fs.exists(root_dir):
+        try:
+            self.root_fs = fsw_openfs(self.root, create=True, exists_ok=False)
+        except FswException:
             raise StorageRootException("OCFL storage root %s already exists, aborting!" % (self.root))
-        parent_fs.makedir(root_dir)
-        self.root_fs = fsw_openfs(self.root)
         logging.debug("Created OCFL storage root directory at %s", self.root)
         # Create root declaration
         self.write_root_declaration(self.root_fs)
-- 
2.43.0


From d1254cfc34389af9be25e6bd6d45e8cfa3fdaeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:17 +0000
Subject: [PATCH 69/74] fix: keep query parameters of S3 URLs in paths derived
 from them

Version directories to build from, the parent directory of a file, and objects
shown within a root were given by adding to or taking from the end of the URL,
where the query parameters are.
---
 ocfl-root.py         |  5 +++--
 ocfl/fsw.py          | 44 ++++++++++++++++++++++++++++++++++++++++++++
 ocfl/object.py       |  9 +++++----
 ocfl/object_utils.py |  4 ++--
 4 files changed, 54 insertions(+), 8 deletions(-)

diff --git a/ocfl-root.py b/ocfl-root.py
index f3f8913..f227b23 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -9,6 +9,7 @@ import ocfl  # pylint: disable=import-self; this isn"t actually self import
 from ocfl.command_line_utils import add_version_arg, add_verbosity_args, \
     check_version_arg, check_verbosity_args
 from ocfl.constants import DEFAULT_SPEC_VERSION
+from ocfl.fsw import fsw_join_path
 
 
 def add_common_args(parser):
@@ -174,13 +175,13 @@ def do_store_operation(args):
         if args.cmd == "path":
             if args.quiet:
                 # Just print the full path
-                print(os.path.join(store.root, objdir))
+                print(fsw_join_path(store.root, objdir))
             else:
                 print("Path to %s inside root %s is %s" % (args.id, store.root, objdir))
         else:
             obj = ocfl.Object(identifier=args.id)
             if args.cmd == "show":
-                logging.warning("Object tree\n%s", obj.tree(objdir=os.path.join(store.root, objdir)))
+                logging.warning("Object tree\n%s", obj.tree(objdir=fsw_join_path(store.root, objdir)))
             else:
                 logging.error("validate not implemented")
     else:
diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index 02e1bb1..ba77ed1 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -68,6 +68,50 @@ def _fsw_s3_urlparse(url_path):
     return path, params
 
 
+def _fsw_split_query(fs_url):
+    """Split query parameters from S3 URL.
+
+    Arguments:
+        fs_url (str): path or URL
+
+    Returns:
+        tuple: (base, query) where the query includes the initial ? and is an
+            empty string for anything other than an S3 URL with parameters
+    """
+    n = fs_url.find("?") if fs_url.startswith("s3://") else -1
+    return (fs_url, "") if n < 0 else (fs_url[:n], fs_url[n:])
+
+
+def fsw_split_path(fs_url):
+    """Split path or URL into those of the parent, and a name within it.
+
+    Arguments:
+        fs_url (str): path or URL
+
+    Returns:
+        tuple: (parent, name) as for os.path.split(..) except that any query
+            parameters of an S3 URL are kept with the parent
+    """
+    base, query = _fsw_split_query(fs_url)
+    parent, name = os.path.split(base)
+    return parent + query, name
+
+
+def fsw_join_path(fs_url, path):
+    """Join relative path to path or URL.
+
+    Arguments:
+        fs_url (str): path or URL
+        path (str): path within that given by fs_url
+
+    Returns:
+        str: as for os.path.join(..) except that any query parameters of an S3
+            URL are kept at the end
+    """
+    base, query = _fsw_split_query(fs_url)
+    return os.path.join(base, path) + query
+
+
 def _fsw_relpath(path, start=""):
     """Safe version of os.path.relpath that does now use local filesystem cwd.
 
diff --git a/ocfl/object.py b/ocfl/object.py
index 119e640..e32d9c3 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -18,7 +18,8 @@ from .inventory import Inventory, InventoryException
 from .inventory_validator import InventoryValidator
 from .new_version import NewVersion
 from .object_utils import parse_version_directory, ObjectException
-from .fsw import fsw_openfs, fsw_copyfile, fsw_listdir_names, fsw_opendir_as_fs, FswException
+from .fsw import (fsw_openfs, fsw_copyfile, fsw_listdir_names, fsw_opendir_as_fs,
+                  fsw_join_path, fsw_split_path, FswException)
 from .namaste import Namaste
 from .validator import Validator, ValidatorAbortException
 from .version_metadata import VersionMetadata
@@ -330,7 +331,7 @@ class Object():  # pylint: disable=too-many-public-methods
         # Create each version of the object
         for (vdir, metadata) in self.version_dirs_and_metadata(src_fs, versions_metadata):
             if inventory is None:
-                nv = NewVersion.first_version(srcdir=os.path.join(srcdir, vdir),
+                nv = NewVersion.first_version(srcdir=fsw_join_path(srcdir, vdir),
                                               identifier=self.id,
                                               spec_version=self.spec_version,
                                               digest_algorithm=self.digest_algorithm,
@@ -341,7 +342,7 @@ class Object():  # pylint: disable=too-many-public-methods
                                               content_path_normalization=self.content_path_normalization)
             else:
                 nv = NewVersion.next_version(inventory=inventory,
-                                             srcdir=os.path.join(srcdir, vdir),
+                                             srcdir=fsw_join_path(srcdir, vdir),
                                              spec_version=self.spec_version,
                                              metadata=metadata,
                                              content_path_normalization=self.content_path_normalization,
@@ -720,7 +721,7 @@ class Object():  # pylint: disable=too-many-public-methods
                               log_errors=log_errors,
                               lax_digests=self.lax_digests)
         try:
-            (inv_dir, inv_file) = os.path.split(path)
+            (inv_dir, inv_file) = fsw_split_path(path)
             validator.obj_fs = fsw_openfs(inv_dir, create=False)
             validator.validate_inventory(inv_file, where="standalone", force_spec_version=force_spec_version)
         except (FswException, FileNotFoundError):
diff --git a/ocfl/object_utils.py b/ocfl/object_utils.py
index b8be709..06239bc 100755
--- a/ocfl/object_utils.py
+++ b/ocfl/object_utils.py
@@ -5,7 +5,7 @@ import re
 
 from ._version import __version__
 from .namaste import find_namastes, NamasteException
-from .fsw import fsw_openfs
+from .fsw import fsw_openfs, fsw_split_path
 
 
 NORMALIZATIONS = ["uri", "md5"]  # Must match possibilities in map_filepaths()
@@ -131,7 +131,7 @@ def find_path_type(path):
     except FileNotFoundError:
         # Failed to open path as a filesystem, try enclosing directory
         # in case path is a file
-        (parent, filename) = os.path.split(path)
+        (parent, filename) = fsw_split_path(path)
         if parent == "":
             parent = "."
         try:
-- 
2.43.0


From fea06c88d6e2b70a17c754294e3415116b6153fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:17 +0000
Subject: [PATCH 70/74] fix: version can be extracted to directory given as URL

Normalization as a path made file:///a/b into the local path file:/a/b.
---
 ocfl/object.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index e32d9c3..1abe8fc 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -772,7 +772,8 @@ class Object():  # pylint: disable=too-many-public-methods
         """
         inv, version = self._extract_setup(objdir, version)
         # Check the destination
-        (parentdir, dir) = os.path.split(os.path.normpath(dstdir))
+        # (a URL cannot be normalized as a path can, that would make one slash of two)
+        (parentdir, dir) = fsw_split_path(dstdir.rstrip("/") if "://" in dstdir else os.path.normpath(dstdir))
         try:
             parent_fs = fsw_openfs(parentdir)
         except FileNotFoundError as e:
-- 
2.43.0


From c71b374e5a7e4ae2fff6537249b5f7c0eb0b45d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:48 +0000
Subject: [PATCH 71/74] fix: see current contents of S3 storage each time it is
 opened

S3 filesystem instances are cached and keep listings of directories, so that
changes made by anything else after something was first read were not seen by
later operations in the same process: an object with files added since it was
last validated was again found valid.
---
 ocfl/fsw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index ba77ed1..a7d64fb 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -215,6 +215,8 @@ def fsw_openfs(fs_url, create=False, exists_ok=True):
         # up from the environment (e.g. in ~/.aws/credentials or other places per
         # https://github.com/boto/botocore)
         fs = S3FileSystem(**params)
+        # The instance may be one used before, we want to see how things are now
+        fs.invalidate_cache()
         # Check that we can access the specified bucket/path and give a helpful error on
         # faulire. Otherwise error will only be thrown from some later attempt to access
         # S3 in the OCFL code.
-- 
2.43.0


From 5aa1b319b89ec62f9a6fb4430d2e1cd5a064e622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:57 +0000
Subject: [PATCH 72/74] fix: path of a file on S3 is not opened as a filesystem

Listing the path of a file on S3 gives the file itself, so that find_path_type
took a file for a directory without declaration.
---
 ocfl/fsw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index a7d64fb..46d98ed 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -221,7 +221,9 @@ def fsw_openfs(fs_url, create=False, exists_ok=True):
         # faulire. Otherwise error will only be thrown from some later attempt to access
         # S3 in the OCFL code.
         try:
-            fs.ls(path, detail=False)
+            entries = fs.ls(path, detail=True)
+            if len(entries) == 1 and entries[0]["type"] == "file" and entries[0]["name"] == path.strip("/"):
+                raise FileNotFoundError("is a file")
         except (FileNotFoundError, PermissionError) as e:
             raise FileNotFoundError("Failed to access S3 bucket/path (%s) (%s)" % (path, str(e)))
         fs = DirFileSystem(path, fs)
-- 
2.43.0


From 380c44efcf2e48c44022ee252cf05e75e6639b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:55 +0000
Subject: [PATCH 73/74] fix: markers of directories on S3 are not taken for
 files

---
 ocfl/object.py       | 6 +++---
 ocfl/storage_root.py | 2 ++
 ocfl/validator.py    | 6 ++++++
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 1abe8fc..887de39 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -19,7 +19,7 @@ from .inventory_validator import InventoryValidator
 from .new_version import NewVersion
 from .object_utils import parse_version_directory, ObjectException
 from .fsw import (fsw_openfs, fsw_copyfile, fsw_listdir_names, fsw_opendir_as_fs,
-                  fsw_join_path, fsw_split_path, FswException)
+                  fsw_join_path, fsw_split_path, fsw_walk, FswException)
 from .namaste import Namaste
 from .validator import Validator, ValidatorAbortException
 from .version_metadata import VersionMetadata
@@ -649,7 +649,7 @@ class Object():  # pylint: disable=too-many-public-methods
                         seen_v_sidecar = True
                     elif v_entry == self.content_directory:
                         num_files = 0
-                        for (v_dirpath, v_dirs, v_files) in self.obj_fs.walk(os.path.join(entry, v_entry)):  # pylint: disable=unused-variable
+                        for (_, _, v_files) in fsw_walk(self.obj_fs, os.path.join(entry, v_entry)):
                             num_files += len(v_files)
                         v_note += "(%d files)" % num_files
                     else:
@@ -779,7 +779,7 @@ class Object():  # pylint: disable=too-many-public-methods
         except FileNotFoundError as e:
             raise ObjectException("Destination parent %s does not exist or could not be opened (%s)" % (parentdir, e))
         if parent_fs.isdir(dir):
-            if len(parent_fs.listdir(dir, detail=False)) > 0:
+            if len(fsw_listdir_names(parent_fs, dir)) > 0:
                 raise ObjectException("Target directory %s already exists and is not empty, aborting!" % (dstdir))
         else:  # Make dstdir
             parent_fs.makedir(dir)
diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 48dbbc9..a74185c 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -359,6 +359,8 @@ class StorageRoot():
         """
         for entry in self.root_fs.listdir("extensions", detail=True):
             name = entry["name"]
+            if name.rstrip("/") == "extensions":
+                continue  # marker some S3 tools write for the directory itself
             if entry["type"] == "directory":
                 if self.log is not None and os.path.relpath(name, "extensions") not in self.registered_extensions:
                     self.log.warning("W901", entry=name)  # FIXME - No good warning code in spec
diff --git a/ocfl/validator.py b/ocfl/validator.py
index cfb78e9..d1b94c9 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -270,6 +270,8 @@ class Validator():
                           "inventory.json." + self.digest_algorithm]
         for entry in self.obj_fs.listdir(""):
             name = entry["name"]
+            if name == "":
+                continue  # marker some S3 tools write for the directory itself
             if entry["type"] == "file":
                 if name not in expected_files and name not in already_checked:
                     self.log.error("E001a", file=name)
@@ -304,6 +306,8 @@ class Validator():
         """
         for entry in self.obj_fs.listdir("extensions", detail=True):
             name = os.path.basename(entry["name"])
+            if name == "":
+                continue  # marker some S3 tools write for the directory itself
             if entry["type"] == "directory":
                 if name not in self.registered_extensions:
                     self.log.warning("W013", entry=name)
@@ -436,6 +440,8 @@ class Validator():
                 # Check contents of version directory except content_directory
                 for entrypath in self.obj_fs.listdir(version_dir, detail=False):
                     entry = os.path.relpath(entrypath, version_dir)
+                    if entry == ".":
+                        continue  # marker some S3 tools write for the directory itself
                     if ((entry == INVENTORY_FILENAME)
                             or (version_dir in self.inventory_digest_files and entry == self.inventory_digest_files[version_dir])):
                         pass
-- 
2.43.0


From c655be4371834beced9d1a9dd9cd70ceca251b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:08 +0000
Subject: [PATCH 74/74] fix: sequence of specification versions is checked
 without a copy of the last inventory

The root inventory is that of the last version, even if there is no copy of
it in the version directory, but its specification version was then not
compared with those of the versions before.
---
 ocfl/validator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index d1b94c9..73a6b5b 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -336,9 +336,12 @@ class Validator():
             inv_file = os.path.join(version_dir, INVENTORY_FILENAME)
             if not self.obj_fs.exists(inv_file):
                 self.log.warning("W010", where=version_dir)
-                continue
-            # There is an inventory file for this version directory, check it
-            if version_dir == last_version:
+                if version_dir != last_version:
+                    continue
+                # The root inventory is that of the last version even if there is no copy
+                this_spec_version = self.spec_version
+            # Else there is an inventory file for this version directory, check it
+            elif version_dir == last_version:
                 # Don't validate in this case. Per the spec the inventory in the last version
                 # MUST be identical to the copy in the object root, just check that
                 root_inv_file = INVENTORY_FILENAME
-- 
2.43.0

