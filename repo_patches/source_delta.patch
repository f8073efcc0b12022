From b68173ade15943838a42f4bae14c073146aa91cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:12 +0000
Subject: [PATCH 01/29] fix: discard everything derived from the old file when
 inifilepath is reassigned

---
 .../ConfigParserEnhanced.py                    | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 3570f11..5faa110 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -198,27 +198,27 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
     def inifilepath(self, value) -> list:
         self._validate_parameter(value, (str, list, Path))
 
-        # If we have already loaded a .ini file, we should reset the data
-        # structure. Delete any lazy-created properties, etc.
-        if hasattr(self, '_inifilepath'):
-            if hasattr(self, '_configparserdata'):
-                delattr(self, '_configparserdata')
-            self._reset_lazy_attr("_loginfo")
-
         # Internally we represent the inifile as a `list of Path` objects.
         # Do the necessary conversions to make that so.
         if not isinstance(value, list):
             value = [value]
 
-        self._inifilepath = []
+        inifilepath = []
 
         for entry in value:
             try:
-                self._inifilepath.append(Path(entry))
+                inifilepath.append(Path(entry))
             except TypeError as ex:
                 self.debug_message(0, "ERROR: invalid entry in `inifilepath` list.")
                 raise ex
 
+        # If we have already loaded a .ini file, we should reset everything
+        # that was derived from it (lazy-created properties, cached results, etc.)
+        if hasattr(self, '_inifilepath'):
+            self._reset_configparserdata()
+
+        self._inifilepath = inifilepath
+
         return self._inifilepath
 
     @property
-- 
2.43.0


From b23078f1fe34fcb6d47d3cdf236fb71ade8f8eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:33 +0000
Subject: [PATCH 02/29] fix: do not cache a configuration whose .ini file
 failed to load

---
 src/configparserenhanced/ConfigParserEnhanced.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 5faa110..408cb63 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -245,14 +245,14 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
               reference and user-guide.
         """
         if not hasattr(self, '_configparserdata'):
-            self._configparserdata = configparser.ConfigParser(
+            configparserdata = configparser.ConfigParser(
                 allow_no_value=True,
                 delimiters=self.configparser_delimiters,
                 default_section=self._internal_default_section_name
             )
 
             # Prevent ConfigParser from lowercasing the keys.
-            self._configparserdata.optionxform = str
+            configparserdata.optionxform = str
 
             # configparser.ConfigParser.read() will not fail if it doesn't read the
             # .ini file(s) in the list, it'll just happily continue on and return
@@ -281,14 +281,16 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
                     raise IOError(msg)
 
             try:
-                self._configparserdata.read(self.inifilepath, encoding='utf-8')
+                configparserdata.read(self.inifilepath, encoding='utf-8')
             except configparser.DuplicateOptionError as ex:
-                delattr(self, '_configparserdata')
                 message = "ERROR: Configparser found a section with "
                 message += "two options with identical keys."
                 self.debug_message(0, message)
                 raise ex
 
+            # Only cache the result once everything was loaded successfully.
+            self._configparserdata = configparserdata
+
         return self._configparserdata
 
     @property
-- 
2.43.0


From f9bb26d9f1164c574e5725903aa78594db8330b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:36 +0000
Subject: [PATCH 03/29] fix: do not treat a section whose parse failed as
 already parsed

---
 src/configparserenhanced/ConfigParserEnhanced.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 408cb63..b89c7bb 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -677,7 +677,12 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
             raise ValueError("`section` cannot be empty.")
 
         # Parse the requested section.
-        result = self._parse_section_r(section, initialize=initialize, finalize=finalize)
+        try:
+            result = self._parse_section_r(section, initialize=initialize, finalize=finalize)
+        except BaseException:
+            # A parse that failed is incomplete, don't let it pass for a cached result.
+            self.configparserenhanceddata._sections_checked.discard(section)
+            raise
 
         # caches the "data_shared" component of handler_parameters
         self.parse_section_last_result = result
@@ -1812,7 +1817,6 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
 
                 if do_parse_section:
                     self._set_owner_options()
-                    self._sections_checked.add(section)
                     self._owner.parse_section(section)
 
             return
-- 
2.43.0


From 4ab49b776eef566a013c66433a58ce96574cc307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:20 +0000
Subject: [PATCH 04/29] fix: parse the default section once and detect cycles
 that pass through it

---
 src/configparserenhanced/ConfigParserEnhanced.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index b89c7bb..e676f3d 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -926,7 +926,14 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
             handler_initialize_params.handler_name = "handler_initialize"
             self.handler_initialize(section_name, handler_initialize_params)
 
-            if self.configparserdata.has_section(self.default_section_name):
+            # The root section is being processed while its implicit default section is parsed,
+            # so a `use` of the root section found in there is a cycle.
+            handler_parameters.data_internal['processed_sections'].add(section_name)
+
+            if (
+                section_name != self.default_section_name
+                and self.configparserdata.has_section(self.default_section_name)
+            ):
                 self._parse_section_r(
                     self.default_section_name,
                     handler_parameters=handler_parameters,
-- 
2.43.0


From d2c1ebd0ef102e6fd3f7af8fd30721e7af241126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:23 +0000
Subject: [PATCH 05/29] fix: restore exception_control_level when unroll_to_str
 fails

---
 .../ConfigParserEnhanced.py                   | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index e676f3d..f329060 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -622,17 +622,18 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         ecl = parser.exception_control_level
         parser.exception_control_level = 0
 
-        section_list = parser.configparserenhanceddata.sections()
+        try:
+            section_list = parser.configparserenhanceddata.sections()
 
-        if section is None:
-            for section in section_list:
+            if section is None:
+                for section in section_list:
+                    output_str += __generate_section(section, parser, delimiter)
+                    output_str += "\n"
+            else:
                 output_str += __generate_section(section, parser, delimiter)
-                output_str += "\n"
-        else:
-            output_str += __generate_section(section, parser, delimiter)
-
-        # reset parser ECL (only useful when not using base class parser)
-        parser.exception_control_level = ecl
+        finally:
+            # reset parser ECL (only useful when not using base class parser)
+            parser.exception_control_level = ecl
 
         output_str = output_str.strip()
         output_str += "\n"
-- 
2.43.0


From f62b7a9fc1a61848261b81c105da5de58c665a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:27 +0000
Subject: [PATCH 06/29] fix: unroll with the delimiters and default section of
 the parser being unrolled

---
 src/configparserenhanced/ConfigParserEnhanced.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index f329060..0569c7a 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -615,6 +615,8 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         parser = None
         if use_base_class_parser:
             parser = ConfigParserEnhanced(filename=self.inifilepath)
+            parser.configparser_delimiters = self.configparser_delimiters
+            parser.default_section_name = self.default_section_name
         else:
             parser = self
 
-- 
2.43.0


From d482a1b6b17c8c903baa5310d29e6c0e4d6804ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:30 +0000
Subject: [PATCH 07/29] fix: unroll multi-line values and values with a percent
 sign to readable .ini text

---
 src/configparserenhanced/ConfigParserEnhanced.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 0569c7a..5437724 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -599,6 +599,9 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
                 for key, value in parser.configparserenhanceddata.items(section):
                     if value is None:
                         value = ""
+                    # Escape the interpolation character and indent continuation lines so
+                    # that the generated text reads back as the same option.
+                    value = value.replace("%", "%%").replace("\n", "\n\t")
                     output += delimiter.join([key, value]).strip() + "\n"
             else:
                 raise KeyError(f"Section `{section}` was not found.")
-- 
2.43.0


From e0a77687c7859bfd67a560007ae13b8c0985eda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:44 +0000
Subject: [PATCH 08/29] fix: quote environment variable values in the generated
 commands

---
 .../src/setenvironment/SetEnvironment.py      | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index 03c7661..187973c 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -1480,11 +1480,11 @@ class SetEnvironment(ConfigParserEnhanced):
             )
 
         if interp == "python":
-            arglist = ['"' + x + '"' for x in arglist]
+            arglist = [self._quote_arg(x, interp) for x in arglist]
             output = "envvar_op({})".format(",".join(arglist))
         elif interp == "bash":
             # Surround each ini command argument in double quotes, except for the first ini command argument
-            arglist[1 :] = ['"' + x + '"' for x in arglist[1 :]]
+            arglist[1 :] = [self._quote_arg(x, interp) for x in arglist[1 :]]
             output = "envvar_op {}".format(" ".join(arglist))
         else:
             self.exception_control_event(
@@ -1593,7 +1593,7 @@ class SetEnvironment(ConfigParserEnhanced):
             )
 
         if interp == "python":
-            arglist = ['"' + x + '"' for x in arglist]
+            arglist = [self._quote_arg(x, interp) for x in arglist]
             output = "ModuleHelper.module({})".format(",".join(arglist))
         elif interp == "bash":
             output = "module {}".format(" ".join(arglist))
@@ -1606,6 +1606,23 @@ class SetEnvironment(ConfigParserEnhanced):
 
         return output
 
+    def _quote_arg(self, arg, interp='python') -> str:
+        """
+        Surround an argument with double quotes, escaping the characters that
+        would otherwise end the quoted string or be altered inside of it.
+
+        Environment variables (i.e., ``${FOO}``) in ``arg`` are left alone so they
+        will still be expanded when the command is executed.
+        """
+        self._validate_parameter(arg, (str))
+
+        arg = arg.replace("\\", "\\\\").replace('"', '\\"')
+        if interp == "python":
+            arg = arg.replace("\n", "\\n").replace("\r", "\\r")
+        elif interp == "bash":
+            arg = arg.replace("`", "\\`")
+        return '"' + arg + '"'
+
     def _gen_script_header_bash(self) -> str:
         """Generate "common" Bash functions
 
-- 
2.43.0


From 7ad54d626d82c7b7b80255b104aab989a88f722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:47 +0000
Subject: [PATCH 09/29] fix: discard the actions of the old .ini file when
 SetEnvironment is reconfigured

---
 wip/setenvironment/src/setenvironment/SetEnvironment.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index 187973c..2b0b169 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -1102,6 +1102,13 @@ class SetEnvironment(ConfigParserEnhanced):
     #  H E L P E R S
     # ---------------
 
+    def _reset_configparserdata(self) -> int:
+        """Reset the internal state, including the actions obtained from the .ini file(s).
+        """
+        super()._reset_configparserdata()
+        self._reset_lazy_attr("_var_actions_cache")
+        return 0
+
     def _apply_envvar(self, operation, envvar_name, envvar_value) -> int:
         """Apply an ENVVAR operation
 
-- 
2.43.0


From 54662bd0dc1001e232194e2b2a728fc9ddb754e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:12 +0000
Subject: [PATCH 10/29] fix: do not keep a rejected system name in
 DetermineSystem

---
 .../determinesystem/DetermineSystem.py        | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/wip/determinesystem/determinesystem/DetermineSystem.py b/wip/determinesystem/determinesystem/DetermineSystem.py
index 0761f17..d22597b 100644
--- a/wip/determinesystem/determinesystem/DetermineSystem.py
+++ b/wip/determinesystem/determinesystem/DetermineSystem.py
@@ -52,9 +52,9 @@ class DetermineSystem(FormattedMsg):
         if not hasattr(self, "_system_name"):
             hostname = socket.gethostname()
             sys_name_from_hostname = self.get_sys_name_from_hostname(hostname)
-            self._system_name = sys_name_from_hostname
-            if self._system_name is not None and not self.silent:
-                print(f"Using system '{self._system_name}' based on matching "
+            system_name = sys_name_from_hostname
+            if system_name is not None and not self.silent:
+                print(f"Using system '{system_name}' based on matching "
                       f"hostname '{hostname}'.")
             sys_name_from_build_name = self.get_sys_name_from_build_name()
             if (sys_name_from_hostname is None and
@@ -74,26 +74,29 @@ class DetermineSystem(FormattedMsg):
             # Use the system name in build_name if sys_name_from_hostname is
             # None.
             if sys_name_from_build_name is not None:
-                self._system_name = sys_name_from_build_name
+                system_name = sys_name_from_build_name
                 if not self.silent:
                     print(("Setting"
                            if sys_name_from_hostname is None
                            else "Overriding") +
-                          f" system to '{self._system_name}' based on "
+                          f" system to '{system_name}' based on "
                           f"specification in build name '{self.build_name}'.")
-                if (sys_name_from_hostname != self._system_name
+                if (sys_name_from_hostname != system_name
                     and self.force_build_name is False):
                     msg = self.get_formatted_msg(textwrap.fill(
                         f"Hostname '{hostname}' matched to system "
                         f"'{sys_name_from_hostname}' in "
                         f"'{self.supported_systems_file}', but you "
-                        f"specified '{self._system_name}' in the build name.  "
+                        f"specified '{system_name}' in the build name.  "
                         "If you want to force the use of "
-                        f"'{self._system_name}', add the --force flag.",
+                        f"'{system_name}', add the --force flag.",
                         width=68
                     ))
                     sys.exit(msg)
 
+            # Only store the system name once it's known to be acceptable.
+            self._system_name = system_name
+
     def get_sys_name_from_hostname(self, hostname):
         """
         Helper function to match the given hostname to a system name, as
-- 
2.43.0


From 17870184b19c22634268858d0d58e53f16560128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:16 +0000
Subject: [PATCH 11/29] fix: keep the anchor of a hostname regex in
 supported-systems.ini

---
 wip/determinesystem/determinesystem/DetermineSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/determinesystem/determinesystem/DetermineSystem.py b/wip/determinesystem/determinesystem/DetermineSystem.py
index d22597b..0e18a93 100644
--- a/wip/determinesystem/determinesystem/DetermineSystem.py
+++ b/wip/determinesystem/determinesystem/DetermineSystem.py
@@ -118,7 +118,7 @@ class DetermineSystem(FormattedMsg):
             #   Match anything that's not      |
             #        a '#' or whitespace.      |
             #                      vvvvv    vvvvvvvv
-            keys = [re.findall(r"([^#^\s]*)(?:\s*#.*)?", key)[0]
+            keys = [re.findall(r"([^#\s]*)(?:\s*#.*)?", key)[0]
                     for key in self.supported_systems_data[sys_name].keys()]
 
             # Keys are treated as REGEXes.
-- 
2.43.0


From 291a1e6a37dc7d538f954e057fe1fd3fc95bc650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:19 +0000
Subject: [PATCH 12/29] fix: do not split a keyword value at a caret

---
 wip/keywordparser/keywordparser/KeywordParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wip/keywordparser/keywordparser/KeywordParser.py b/wip/keywordparser/keywordparser/KeywordParser.py
index 58fc07e..61e53ca 100644
--- a/wip/keywordparser/keywordparser/KeywordParser.py
+++ b/wip/keywordparser/keywordparser/KeywordParser.py
@@ -43,12 +43,12 @@ class KeywordParser(FormattedMsg):
                       else "")
 
         uncommented_values_list = re.findall(
-            r"(?:\s*?#.*\n*)*([^#^\n]*)", values_str
+            r"(?:\s*?#.*\n*)*([^#\n]*)", values_str
         )
         # Regex Explanation
         # =================
-        # (?:\s*?#.*\n*)*([^#^\n]*)
-        # ^^^^^^^^^^^^^ ^ ^^^^^^^^
+        # (?:\s*?#.*\n*)*([^#\n]*)
+        # ^^^^^^^^^^^^^ ^ ^^^^^^^
         # |             | |
         # |             | **Matching group for all non-#/non-\n characters
         # |             |   (i.e. 'intel 18  ', 'intel_19', or 'intel-20')**
-- 
2.43.0


From e0895925c81c800685c62f7bf1a0db20b4c52d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:23 +0000
Subject: [PATCH 13/29] fix: reject any whitespace in keyword values

---
 wip/keywordparser/keywordparser/KeywordParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/keywordparser/keywordparser/KeywordParser.py b/wip/keywordparser/keywordparser/KeywordParser.py
index 61e53ca..968b89b 100644
--- a/wip/keywordparser/keywordparser/KeywordParser.py
+++ b/wip/keywordparser/keywordparser/KeywordParser.py
@@ -127,7 +127,7 @@ class KeywordParser(FormattedMsg):
             SystemExit:  If any value contains whitespace.
         """
         values_w_whitespace_or_delim = [_ for _ in values_list
-                                        if " " in _ or "_" in _]
+                                        if re.search(r"[\s_]", _)]
         values_w_whitespace_or_delim = [_ for _ in values_w_whitespace_or_delim
                                         if _ not in ["SELECT_ONE", "SELECT_MANY"]]
         try:
-- 
2.43.0


From a5306309cd0f21be5a97fea144fab57ea4c8646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:26 +0000
Subject: [PATCH 14/29] fix: match environment names and aliases literally

---
 wip/loadenv/loadenv/EnvKeywordParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wip/loadenv/loadenv/EnvKeywordParser.py b/wip/loadenv/loadenv/EnvKeywordParser.py
index a440af6..1e52350 100644
--- a/wip/loadenv/loadenv/EnvKeywordParser.py
+++ b/wip/loadenv/loadenv/EnvKeywordParser.py
@@ -90,7 +90,7 @@ class EnvKeywordParser(KeywordParser):
             for name in self.env_names:
                 env_name_in_build_name = (
                     False
-                    if re.search(f"(?:^|{self.delim}){name}(?:$|{self.delim})", self.build_name) is
+                    if re.search(f"(?:^|{self.delim}){re.escape(name)}(?:$|{self.delim})", self.build_name) is
                     None else True
                     )
 
@@ -104,7 +104,7 @@ class EnvKeywordParser(KeywordParser):
                 for alias in self.aliases:
                     alias_in_build_name = (
                         False if
-                        re.search(f"(?:^|{self.delim}){alias}(?:$|{self.delim})",
+                        re.search(f"(?:^|{self.delim}){re.escape(alias)}(?:$|{self.delim})",
                                   self.build_name) is None else True
                         )
 
-- 
2.43.0


From da39da85b35ecd33518b4055b85f932e6593deee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:01 +0000
Subject: [PATCH 15/29] fix: allow get and has_option on a section that was
 added directly

---
 src/configparserenhanced/ConfigParserEnhanced.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 5437724..33ace46 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -1828,6 +1828,12 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
                 do_parse_section = section not in self._sections_checked
                 do_parse_section = do_parse_section or force_parse
 
+                # A section that only exists because it was added directly via ``set`` or
+                # ``add_section`` isn't in the .ini file so there is nothing to parse.
+                if self.has_section_no_parse(section):
+                    if not self._owner.configparserdata.has_section(section):
+                        do_parse_section = False
+
                 if do_parse_section:
                     self._set_owner_options()
                     self._owner.parse_section(section)
-- 
2.43.0


From 95bf3c1fd9c3dc16f324479f0c02daf2c1e48356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:20 +0000
Subject: [PATCH 16/29] fix: drop what a failed parse left in the section data

A failed parse of a section that does not exist left the options of the
default section behind under its name, so that the next access found the
section instead of raising KeyError.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 33ace46..fd9a005 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -683,11 +683,18 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
             raise ValueError("`section` cannot be empty.")
 
         # Parse the requested section.
+        section_data_all = self.configparserenhanceddata.data
+        section_data_old = dict(section_data_all[section]) if section in section_data_all else None
         try:
             result = self._parse_section_r(section, initialize=initialize, finalize=finalize)
         except BaseException:
             # A parse that failed is incomplete, don't let it pass for a cached result.
             self.configparserenhanceddata._sections_checked.discard(section)
+            if section_data_old is None:
+                section_data_all.pop(section, None)
+            else:
+                section_data_all[section].clear()
+                section_data_all[section].update(section_data_old)
             raise
 
         # caches the "data_shared" component of handler_parameters
-- 
2.43.0


From 606d156cc2337ba534c8c3e24f365e5f309da187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:52 +0000
Subject: [PATCH 17/29] fix: do not keep sections parsed by unroll_to_str at
 the lowered exception level

With use_base_class_parser=False the sections were parsed by the instance
itself with exceptions suppressed, and later accesses returned that result
instead of raising as the instance's own exception_control_level demands.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index fd9a005..d9ae9b4 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -626,6 +626,7 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         # Turn off ECL notifications
         ecl = parser.exception_control_level
         parser.exception_control_level = 0
+        sections_checked = set(parser.configparserenhanceddata._sections_checked)
 
         try:
             section_list = parser.configparserenhanceddata.sections()
@@ -639,6 +640,8 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         finally:
             # reset parser ECL (only useful when not using base class parser)
             parser.exception_control_level = ecl
+            # and parse what was parsed at the lowered level again when it is needed
+            parser.configparserenhanceddata._sections_checked.intersection_update(sections_checked)
 
         output_str = output_str.strip()
         output_str += "\n"
-- 
2.43.0


From d88f7ebc5ff43d9b2cc38261d623318bfc73bba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:05 +0000
Subject: [PATCH 18/29] fix: escape what is not a variable reference in the
 generated bash commands

---
 wip/setenvironment/src/setenvironment/SetEnvironment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index 2b0b169..99be2cf 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -1628,6 +1628,8 @@ class SetEnvironment(ConfigParserEnhanced):
             arg = arg.replace("\n", "\\n").replace("\r", "\\r")
         elif interp == "bash":
             arg = arg.replace("`", "\\`")
+            # only `$NAME` and `${NAME}` are variable references
+            arg = re.sub(r"\$(?![A-Za-z_]|\{[A-Za-z_][A-Za-z0-9_]*\})", r"\\$", arg)
         return '"' + arg + '"'
 
     def _gen_script_header_bash(self) -> str:
-- 
2.43.0


From e016f1584db175fd6041175ad4e4d84697ce8618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:02 +0000
Subject: [PATCH 19/29] fix: drop keyword values that are only blanks

---
 wip/keywordparser/keywordparser/KeywordParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/keywordparser/keywordparser/KeywordParser.py b/wip/keywordparser/keywordparser/KeywordParser.py
index 968b89b..78fa198 100644
--- a/wip/keywordparser/keywordparser/KeywordParser.py
+++ b/wip/keywordparser/keywordparser/KeywordParser.py
@@ -73,7 +73,7 @@ class KeywordParser(FormattedMsg):
         # This leaves us with:
         #     ['intel-18', 'intel-18.0.5', 'intel-default']
 
-        values_list = [v.strip() for v in uncommented_values_list if v != ""]
+        values_list = [v.strip() for v in uncommented_values_list if v.strip() != ""]
 
         self.assert_values_are_unique(values_list, section, key)
         self.assert_values_do_not_contain_whitespace_or_delimiter(values_list)
-- 
2.43.0


From af8f550f577a59c87be90fd11bbdeb4152a33c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:02 +0000
Subject: [PATCH 20/29] fix: check the environment specs again after a failed
 check in LoadEnv

---
 wip/loadenv/load_env.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wip/loadenv/load_env.py b/wip/loadenv/load_env.py
index 75ce893..4cbdf5a 100755
--- a/wip/loadenv/load_env.py
+++ b/wip/loadenv/load_env.py
@@ -213,15 +213,19 @@ class LoadEnv(FormattedMsg):
         ``environment-specs.ini``.  Save the resulting object as
         :attr:`set_environment`.
         """
-        if self.set_environment is None:
-            self.set_environment = SetEnvironment(filename=self.args.environment_specs_file)
+        set_environment = self.set_environment
+        if set_environment is None:
+            set_environment = SetEnvironment(filename=self.args.environment_specs_file)
 
         # Make sure all operations specified in environment-specs.ini are valid
         # Note: If `set_environment.exception_control_level` is
         #       2 or less then `ValueError` will not be raised but
         #       rather `set_environment` will return a nonzero value.
-        self.set_environment.exception_control_level = 5
-        self.set_environment.assert_file_all_sections_handled()
+        set_environment.exception_control_level = 5
+        set_environment.assert_file_all_sections_handled()
+
+        # Only keep what passed, so that a later attempt is checked again.
+        self.set_environment = set_environment
 
 
     def apply_env(self):
-- 
2.43.0


From 0e5466dfb8e2ed3a1e5fc306cf041b6b15deba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:02 +0000
Subject: [PATCH 21/29] fix: restore the build name when config-specs.ini does
 not validate

---
 wip/genconfig/gen_config.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index fb47417..fb982cc 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -180,6 +180,16 @@ class GenConfig(FormattedMsg):
         if self.load_env is None:
             self.load_load_env()
 
+        try:
+            self._assert_config_specs_sections_are_valid()
+        finally:
+            # Whether or not this succeeded, go back to the user's build name.
+            self.load_env.build_name = self.args.build_name
+            self.load_env.args.force = self.args.force
+            self.config_keyword_parser.build_name = self.args.build_name
+        self.has_been_validated = True
+
+    def _assert_config_specs_sections_are_valid(self):
         ckp = self.config_keyword_parser
         le = self.load_env
         le.args.force = True
@@ -230,11 +240,6 @@ class GenConfig(FormattedMsg):
                                  f"'{self.args.config_specs_file.name}'.")
             ))
 
-        self.load_env.build_name = self.args.build_name
-        self.load_env.args.force = self.args.force
-        self.config_keyword_parser.build_name = self.args.build_name
-        self.has_been_validated = True
-
     def load_config_keyword_parser(self):
         """
         Instantiate an :class:`ConfigKeywordParser` object with this object's
-- 
2.43.0


From c54bfd73c85e60be910ba7909ffd5c5f9a8fb5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:13 +0000
Subject: [PATCH 22/29] fix: list only the configurations of the named system
 in GenConfig

A system whose name is the beginning of another system's name was given the
configurations of both.
---
 wip/genconfig/gen_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index fb982cc..810e9ab 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -145,7 +145,7 @@ class GenConfig(FormattedMsg):
             self.args.config_specs_file
         ).configparserenhanceddata
         complete_configs = [_ for _ in config_specs.sections()
-                            if _.startswith(sys_name)]
+                            if _.startswith(f"{sys_name}_")]
 
         print(self.get_msg_for_list(
             "Please select one of the following complete configurations from\n"
-- 
2.43.0


From 7551efa8667043f88361ec3ac90f805eee71e115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:18 +0000
Subject: [PATCH 23/29] fix: report a failed module unload or swap with Lmod

"X && false || true" is true whatever X is, so that the test after an unload
or swap never failed.
---
 wip/setenvironment/src/setenvironment/ModuleHelper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/setenvironment/src/setenvironment/ModuleHelper.py b/wip/setenvironment/src/setenvironment/ModuleHelper.py
index 18cbf6d..ad1e8a8 100644
--- a/wip/setenvironment/src/setenvironment/ModuleHelper.py
+++ b/wip/setenvironment/src/setenvironment/ModuleHelper.py
@@ -135,7 +135,7 @@ try:          # pragma: cover if on lmod
         _arguments = _command[1 :] + list(arguments)
         shell_cmds = []
         is_loaded = "module is-loaded {0} && true  || false"
-        is_unloaded = "module is-loaded {0} && false || true"
+        is_unloaded = "! module is-loaded {0}"
         is_file = "[ -e {0} ] && true || false"
         # TODO: handle other commands: purge, etc.
         if _command[0] == 'load':
-- 
2.43.0


From b1bb2aafad1feb65cb985baebd35597c2519aafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:22 +0000
Subject: [PATCH 24/29] fix: raise FileNotFoundError when LMOD_CMD is not set

len(None) raised a TypeError before the intended error.
---
 wip/setenvironment/src/setenvironment/ModuleHelper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/setenvironment/src/setenvironment/ModuleHelper.py b/wip/setenvironment/src/setenvironment/ModuleHelper.py
index ad1e8a8..279506e 100644
--- a/wip/setenvironment/src/setenvironment/ModuleHelper.py
+++ b/wip/setenvironment/src/setenvironment/ModuleHelper.py
@@ -83,7 +83,7 @@ try:          # pragma: cover if on lmod
         # they are both "patched" for unit testing.... I am settling for os.getenv
         # of LMOD_CMD, which is not a bash function, for now. Note that declare -F
         # is the more robust approach.
-        lmod_cmd_env = os.getenv("LMOD_CMD")
+        lmod_cmd_env = os.getenv("LMOD_CMD", "")
         if len(lmod_cmd_env) == 0:
             raise FileNotFoundError("Unable to find module function")
 
-- 
2.43.0


From 2b50138753ae715fe274388caef281cd791720c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:13 +0000
Subject: [PATCH 25/29] fix: join relative paths with a relative gen-config.ini
 only once

---
 wip/genconfig/gen_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index 810e9ab..38ea216 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -334,7 +334,7 @@ class GenConfig(FormattedMsg):
             else:
                 if not Path(value).is_absolute():
                     self._gen_config_config_data[section][key] = str(
-                        self.gen_config_ini_file.parent / value
+                        self.gen_config_ini_file.parent.absolute() / value
                     )
 
             if not Path(self._gen_config_config_data[section][key]).exists():
-- 
2.43.0


From ea78cfedc0eec8849a367275ff88c49ee73cbf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:13 +0000
Subject: [PATCH 26/29] fix: load-env.sh removes its own scratch files and
 nothing else

---
 wip/loadenv/load-env.sh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wip/loadenv/load-env.sh b/wip/loadenv/load-env.sh
index 988fc3b..1bfff00 100755
--- a/wip/loadenv/load-env.sh
+++ b/wip/loadenv/load-env.sh
@@ -35,9 +35,10 @@ function cleanup()
     local ret_val=$ret
     [ -f /tmp/$USER/.load_matching_env_loc ] && rm -f /tmp/$USER/.load_matching_env_loc 2>/dev/null
     [ -f /tmp/$USER/.ci_mode ] && rm -f /tmp/$USER/.ci_mode 2>/dev/null
-    [ ! -z ${env_file} ] && rm -f ${env_file} 2>/dev/null; rm -f ${env_file::-2}rc 2>/dev/null
+    [ ! -z ${env_file} ] && rm -f ${env_file} ${env_file::-2}rc 2>/dev/null
+    [ ! -z ${load_matching_env_loc} ] && rm -f ${load_matching_env_loc} 2>/dev/null
 
-    unset python_too_old script_dir ci_mode cleanup env_file ret
+    unset python_too_old script_dir ci_mode cleanup env_file load_matching_env_loc ret
     trap -  SIGHUP SIGINT SIGTERM
     return $ret_val
 }
-- 
2.43.0


From 1940392e269f7bd7c1c061854d89fe98190edba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:13 +0000
Subject: [PATCH 27/29] fix: load-env.sh passes arguments with blanks on as
 they are

---
 wip/loadenv/load-env.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/loadenv/load-env.sh b/wip/loadenv/load-env.sh
index 1bfff00..2083942 100755
--- a/wip/loadenv/load-env.sh
+++ b/wip/loadenv/load-env.sh
@@ -79,7 +79,7 @@ fi
 # a correct load_matching_env.sh to be sourced. The path to this file is
 # output to .load_matching_env_loc
 load_matching_env_loc=.load_matching_env_loc.$RANDOM
-python3 -E -s ${script_dir}/load_env.py --load-matching-env-location $load_matching_env_loc $@; ret=$?
+python3 -E -s ${script_dir}/load_env.py --load-matching-env-location $load_matching_env_loc "$@"; ret=$?
 if [[ $ret -ne 0 ]]; then
     cleanup; return $?
 fi
-- 
2.43.0


From be384bcfca503c64b1bfa81e4f4d8f9e5cbee705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:13 +0000
Subject: [PATCH 28/29] fix: gen-config.sh reports the failure of a step

---
 wip/genconfig/gen-config.sh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wip/genconfig/gen-config.sh b/wip/genconfig/gen-config.sh
index 2150e0d..f99d007 100755
--- a/wip/genconfig/gen-config.sh
+++ b/wip/genconfig/gen-config.sh
@@ -102,7 +102,7 @@ fi
 ### Generate the configuration ###
 python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args
 if [[ $? -ne 0 ]]; then
-    cleanup_gc; return $?
+    cleanup_gc; return 1
 fi
 ### ========================== ###
 
@@ -146,12 +146,15 @@ declare -x -f gen_config_helper
 # Get proper call args to pass to LoadEnv, which ARE NOT the same as those we pass to GenConfig.
 python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args --save-load-env-args /tmp/$USER/.load_env_args
 if [[ $? -ne 0 ]]; then
-    cleanup_gc; return $?
+    cleanup_gc; return 1
 fi
 load_env_call_args=$(cat /tmp/$USER/.load_env_args)
 
 # Actually run LoadEnv:
 source ${script_dir}/LoadEnv/load-env.sh ${load_env_call_args}
+if [[ $? -ne 0 ]]; then
+    cleanup_gc; return 1
+fi
 ### ========================== ###
 
 ####### END configuration #######
-- 
2.43.0


From 5ea9c16d9385d40661333ab8f57c4d5e8be9fc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:13 +0000
Subject: [PATCH 29/29] fix: gen-config.sh passes the generated flags to cmake
 as shell words

---
 wip/genconfig/gen-config.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/genconfig/gen-config.sh b/wip/genconfig/gen-config.sh
index f99d007..c7ee53e 100755
--- a/wip/genconfig/gen-config.sh
+++ b/wip/genconfig/gen-config.sh
@@ -134,7 +134,7 @@ function gen_config_helper()
         sleep 2s
 
         # Execute cmake call
-        cmake $cmake_args $path_to_src
+        eval "cmake $cmake_args $path_to_src"
     else
         echo; echo
         echo "Please run: \"cmake\" with the generated cmake fragment file as input"
-- 
2.43.0

