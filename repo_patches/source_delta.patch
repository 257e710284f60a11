From 069e0be91203100312f7627f3ff93acfbbc27091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:10 +0000
Subject: [PATCH 01/41] fix: do not search for short flags after the
 end-of-options identifier --

---
 include/sharg/detail/format_parse.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index b2b0feb..b54b042 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -258,8 +258,11 @@ private:
     bool flag_is_set(char const short_id)
     {
         // short flags need special attention, since they could be grouped (-rGv <=> -r -G -v)
-        for (std::string & arg : arguments)
+        // Arguments after the end-of-options identifier `--` are never flags.
+        for (auto it = arguments.begin(); it != end_of_options_it; ++it)
         {
+            std::string & arg = *it;
+
             if (arg[0] == '-' && arg.size() > 1 && arg[1] != '-') // is option && not dash && no long option
             {
                 auto pos = arg.find(short_id);
-- 
2.43.0


From d526e5e8dadbceeb51d08b9ada0580a9d8b49414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:27 +0000
Subject: [PATCH 02/41] fix: do not search for special options after the
 end-of-options identifier --

---
 include/sharg/parser.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 7f996ae..a8919d3 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -890,6 +890,16 @@ private:
             if (found_subcommand())
                 break;
 
+            // No options follow the end-of-options identifier, i.e. there are no special options to look for.
+            if (arg == option_end_identifier)
+            {
+                format_arguments.emplace_back(arg);
+                while (read_next_arg() && !found_subcommand())
+                    format_arguments.emplace_back(arg);
+
+                break;
+            }
+
             if (arg == "-h" || arg == "--help")
             {
                 format = detail::format_help{subcommands, version_check_dev_decision, false};
-- 
2.43.0


From 8446cba6cfa7e3e731996159e72df3674c394938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:32 +0000
Subject: [PATCH 03/41] fix: keep all values of a list option that is given by
 both its short and long identifier

---
 include/sharg/detail/format_parse.hpp | 64 ++++++++++++++++++---------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index b54b042..c535db1 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -568,31 +568,44 @@ private:
 
     /*!\brief Handles value retrieval (container type) options.
      *
-     * \param[out] value Stores all values found in arguments, parsed by parse_option_value.
-     * \param[in]  id    The option identifier supplied on the command line.
+     * \param[out] value    Stores all values found in arguments, parsed by parse_option_value.
+     * \param[in]  short_id The short identifier of the option.
+     * \param[in]  long_id  The long identifier of the option.
      *
      * \details
      *
      * Since option_type is a container, the option is a list and can be parsed
-     * multiple times.
+     * multiple times. The values are stored in the order of their appearance on the command line, independent of
+     * whether they are specified via the short or the long identifier.
      *
+     * Returns true if the option was set at least once and false otherwise.
      */
-    template <detail::is_container_option option_type, typename id_type>
-    bool get_option_by_id(option_type & value, id_type const & id)
+    template <detail::is_container_option option_type>
+    bool get_list_option(option_type & value, char const short_id, std::string const & long_id)
     {
-        auto it = find_option_id(arguments.begin(), end_of_options_it, id);
-        bool seen_at_least_once{it != end_of_options_it};
+        auto short_it = find_option_id(arguments.begin(), end_of_options_it, short_id);
+        auto long_it = find_option_id(arguments.begin(), end_of_options_it, long_id);
 
-        if (seen_at_least_once)
-            value.clear();
+        if (short_it == end_of_options_it && long_it == end_of_options_it)
+            return false;
+
+        value.clear();
 
-        while (it != end_of_options_it)
+        while (short_it != end_of_options_it || long_it != end_of_options_it)
         {
-            identify_and_retrieve_option_value(value, it, id);
-            it = find_option_id(it, end_of_options_it, id);
+            if (short_it < long_it)
+            {
+                identify_and_retrieve_option_value(value, short_it, short_id);
+                short_it = find_option_id(short_it, end_of_options_it, short_id);
+            }
+            else
+            {
+                identify_and_retrieve_option_value(value, long_it, long_id);
+                long_it = find_option_id(long_it, end_of_options_it, long_id);
+            }
         }
 
-        return seen_at_least_once;
+        return true;
     }
 
     /*!\brief Checks format_parse::arguments for unknown options/flags.
@@ -680,15 +693,26 @@ private:
     template <typename option_type, typename validator_t>
     void get_option(option_type & value, config<validator_t> const & config)
     {
-        bool short_id_is_set{get_option_by_id(value, config.short_id)};
-        bool long_id_is_set{get_option_by_id(value, config.long_id)};
+        bool option_is_set{};
+
+        if constexpr (detail::is_container_option<option_type>)
+        {
+            option_is_set = get_list_option(value, config.short_id, config.long_id);
+        }
+        else
+        {
+            bool short_id_is_set{get_option_by_id(value, config.short_id)};
+            bool long_id_is_set{get_option_by_id(value, config.long_id)};
 
-        // if value is no container we need to check for multiple declarations
-        if (short_id_is_set && long_id_is_set && !detail::is_container_option<option_type>)
-            throw option_declared_multiple_times("Option " + combine_option_names(config.short_id, config.long_id)
-                                                 + " is no list/container but specified multiple times");
+            // if value is no container we need to check for multiple declarations
+            if (short_id_is_set && long_id_is_set)
+                throw option_declared_multiple_times("Option " + combine_option_names(config.short_id, config.long_id)
+                                                     + " is no list/container but specified multiple times");
+
+            option_is_set = short_id_is_set || long_id_is_set;
+        }
 
-        if (short_id_is_set || long_id_is_set)
+        if (option_is_set)
         {
             try
             {
-- 
2.43.0


From caf4374c0f796643cf906eb50ac5ec265bc14c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:32 +0000
Subject: [PATCH 04/41] fix: report out-of-range numbers given to list options

---
 include/sharg/detail/format_parse.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index c535db1..2f0b140 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -461,7 +461,12 @@ private:
                                    + get_type_name_as_string(option_type{}) + "."};
         }
 
-        if constexpr (std::is_arithmetic_v<option_type>)
+        if constexpr (detail::is_container_option<option_type>)
+        {
+            // The result belongs to a single value of the list.
+            throw_on_input_error<typename option_type::value_type>(res, option_name, input_value);
+        }
+        else if constexpr (std::is_arithmetic_v<option_type>)
         {
             if (res == option_parse_result::overflow_error)
             {
-- 
2.43.0


From 5f9cf664a2d08d6fcacaa464e835520ec372f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:05 +0000
Subject: [PATCH 05/41] fix: do not mistake the value of an option for an
 identifier

---
 include/sharg/detail/format_parse.hpp | 67 ++++++++++++++++++++++++---
 include/sharg/parser.hpp              | 15 ++++--
 2 files changed, 72 insertions(+), 10 deletions(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 2f0b140..4d62816 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -69,6 +69,11 @@ public:
     template <typename option_type, typename validator_t>
     void add_option(option_type & value, config<validator_t> const & config)
     {
+        if (!is_empty_id(config.short_id))
+            option_ids.push_back(prepend_dash(config.short_id));
+        if (!is_empty_id(config.long_id))
+            option_ids.push_back(prepend_dash(config.long_id));
+
         option_calls.push_back(
             [this, &value, config]()
             {
@@ -105,7 +110,8 @@ public:
     //!\brief Initiates the actual command line parsing.
     void parse(parser_meta_data const & /*meta*/)
     {
-        end_of_options_it = std::find(arguments.begin(), arguments.end(), "--");
+        // Must be done before any argument is removed.
+        determine_option_values_and_end_of_options();
 
         // parse options first, because we need to rule out -keyValue pairs
         // (e.g. -AnoSpaceAfterIdentifierA) before parsing flags
@@ -239,6 +245,49 @@ private:
             return prepend_dash(short_id) + "/" + prepend_dash(long_id);
     }
 
+    /*!\brief Determines which arguments are option values (`-key value`) and where the options end (`--`).
+     *
+     * \details
+     *
+     * The argument following an option identifier is always the value of this option. It must neither be mistaken for
+     * another option nor for the end-of-options identifier, e.g. `-o -a5` does not set option `-a`.
+     */
+    void determine_option_values_and_end_of_options()
+    {
+        is_option_value.assign(arguments.size(), false);
+
+        for (end_of_options_it = arguments.begin(); end_of_options_it != arguments.end(); ++end_of_options_it)
+        {
+            if (*end_of_options_it == "--")
+                return;
+
+            if (std::find(option_ids.begin(), option_ids.end(), *end_of_options_it) == option_ids.end())
+                continue;
+
+            if (std::next(end_of_options_it) != arguments.end())
+            {
+                ++end_of_options_it;
+                is_option_value[std::distance(arguments.begin(), end_of_options_it)] = true;
+            }
+        }
+    }
+
+    /*!\brief Finds the position of an option identifier in format_parse::arguments that is not an option value.
+     * \param[in] it The iterator where to start the search of the identifier.
+     * \param[in] id The identifier to search for (must not contain dashes).
+     * \returns An iterator to the first occurrence of `id` or format_parse::end_of_options_it if there is none.
+     */
+    template <typename id_type>
+    std::vector<std::string>::iterator find_option(std::vector<std::string>::iterator it, id_type const & id)
+    {
+        it = find_option_id(it, end_of_options_it, id);
+
+        while (it != end_of_options_it && is_option_value[std::distance(arguments.begin(), it)])
+            it = find_option_id(std::next(it), end_of_options_it, id);
+
+        return it;
+    }
+
     /*!\brief Returns true and removes the long identifier if it is in format_parse::arguments.
      * \param[in] long_id The long identifier of the flag to check.
      */
@@ -559,12 +608,12 @@ private:
     template <typename option_type, typename id_type>
     bool get_option_by_id(option_type & value, id_type const & id)
     {
-        auto it = find_option_id(arguments.begin(), end_of_options_it, id);
+        auto it = find_option(arguments.begin(), id);
 
         if (it != end_of_options_it)
             identify_and_retrieve_option_value(value, it, id);
 
-        if (find_option_id(it, end_of_options_it, id) != end_of_options_it) // should not be found again
+        if (find_option(it, id) != end_of_options_it) // should not be found again
             throw option_declared_multiple_times("Option " + prepend_dash(id)
                                                  + " is no list/container but declared multiple times.");
 
@@ -588,8 +637,8 @@ private:
     template <detail::is_container_option option_type>
     bool get_list_option(option_type & value, char const short_id, std::string const & long_id)
     {
-        auto short_it = find_option_id(arguments.begin(), end_of_options_it, short_id);
-        auto long_it = find_option_id(arguments.begin(), end_of_options_it, long_id);
+        auto short_it = find_option(arguments.begin(), short_id);
+        auto long_it = find_option(arguments.begin(), long_id);
 
         if (short_it == end_of_options_it && long_it == end_of_options_it)
             return false;
@@ -601,12 +650,12 @@ private:
             if (short_it < long_it)
             {
                 identify_and_retrieve_option_value(value, short_it, short_id);
-                short_it = find_option_id(short_it, end_of_options_it, short_id);
+                short_it = find_option(short_it, short_id);
             }
             else
             {
                 identify_and_retrieve_option_value(value, long_it, long_id);
-                long_it = find_option_id(long_it, end_of_options_it, long_id);
+                long_it = find_option(long_it, long_id);
             }
         }
 
@@ -843,6 +892,10 @@ private:
     unsigned positional_option_count{0};
     //!\brief Vector of command line arguments.
     std::vector<std::string> arguments;
+    //!\brief The option identifiers (including dashes) that expect a value.
+    std::vector<std::string> option_ids;
+    //!\brief Whether the respective argument is the value of an option (`-key value`).
+    std::vector<bool> is_option_value;
     //!\brief Artificial end of arguments if \-- was seen.
     std::vector<std::string>::iterator end_of_options_it;
 };
diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index a8919d3..6bfa330 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -511,9 +511,18 @@ public:
             throw design_error{"You can only ask for option identifiers that you added with add_option() before."};
 
         // we only need to search for an option before the `option_end_identifier` (`--`)
-        auto option_end = std::find(format_arguments.begin(), format_arguments.end(), option_end_identifier);
-        auto option_it = detail::format_parse::find_option_id(format_arguments.begin(), option_end, short_or_long_id);
-        return option_it != option_end;
+        auto it = format_arguments.begin();
+        for (; it != format_arguments.end() && *it != option_end_identifier; ++it)
+        {
+            if (detail::format_parse::find_option_id(it, std::next(it), short_or_long_id) == it)
+                return true;
+
+            // The value of an option is not an identifier.
+            if (options.contains(*it) && std::next(it) != format_arguments.end())
+                ++it;
+        }
+
+        return false;
     }
 
     //!\name Structuring the Help Page
-- 
2.43.0


From f934e196f4552d468ae22c005eb471e9164a5bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:05 +0000
Subject: [PATCH 06/41] fix: do not throw if the HOME environment variable is
 not set

---
 include/sharg/detail/version_check.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index b57c93d..9a8d3ce 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -226,12 +226,20 @@ public:
 
         path tmp_path;
 
-        tmp_path = std::string{getenv(home_env_name)};
-        tmp_path /= ".config";
-
-        // First, create .config if it does not already exist.
         std::error_code err;
-        create_directory(tmp_path, err);
+
+        if (char const * const home = std::getenv(home_env_name); home != nullptr)
+        {
+            tmp_path = home;
+            tmp_path /= ".config";
+
+            // First, create .config if it does not already exist.
+            create_directory(tmp_path, err);
+        }
+        else // There is no home directory.
+        {
+            err = std::make_error_code(std::errc::no_such_file_or_directory);
+        }
 
         // If this did not fail we, create the seqan subdirectory.
         if (!err)
-- 
2.43.0


From e3a2a4a74eb7888cd0f25d9271fef25a78d8edfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:05 +0000
Subject: [PATCH 07/41] fix: do not write cookies and version files to the
 working directory

---
 include/sharg/detail/version_check.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 9a8d3ce..eb6a760 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -283,6 +283,9 @@ public:
      * If the environment variable SHARG_NO_VERSION_CHECK is set no version check is done (rules out all following).
      * No cookie is written.
      *
+     * If there is no writable directory to store the timestamp and version files, no version check is done (rules out
+     * all following). No cookie is written.
+     *
      * If the user explicitly uses the --version-check option (user_approval is set) it rules out all following
      * decisions. No cookie is written.
      *
@@ -303,6 +306,9 @@ public:
         if (std::getenv("SHARG_NO_VERSION_CHECK") != nullptr) // environment variable was set
             return false;
 
+        if (cookie_path.empty()) // there is no directory to write to
+            return false;
+
         if (user_approval.has_value())
             return user_approval.value();
 
-- 
2.43.0


From d3ac20b3ec59e777ac0e9fc893449039a20928f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:05 +0000
Subject: [PATCH 08/41] fix: perform at most one version check per day if the
 user decided to always check

---
 include/sharg/detail/version_check.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index eb6a760..e50e7cb 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -291,7 +291,7 @@ public:
      *
      * If none of the above apply, version check was not explicitly handled so cookie content is checked:
      * * NEVER: Do not perform the version check and do not change the cookie.
-     * * ALWAYS: Do perform the version check once a day and do not change the cookie.
+     * * ALWAYS: Do perform the version check once a day and only refresh the timestamp of the cookie.
      * * ASK: Ask the user or default the decision once a day.
      *
      * If the cookie content is "ASK" and the timestamp is older than a day we ask the user,
@@ -327,7 +327,8 @@ public:
                     return false;
                 }
 
-                std::getline(timestamp_file, cookie_line); // second line contains the last user decision
+                // second line contains the last user decision
+                bool const has_timestamp = static_cast<bool>(std::getline(timestamp_file, cookie_line));
 
                 if (cookie_line == "NEVER")
                 {
@@ -335,6 +336,11 @@ public:
                 }
                 else if (cookie_line == "ALWAYS")
                 {
+                    timestamp_file.close();
+
+                    if (has_timestamp)
+                        write_cookie(cookie_line); // refresh the timestamp, such that we check at most once a day
+
                     return true;
                 }
                 // else we do not return but continue to ask the user
-- 
2.43.0


From 708403dd04d05450ca4495cf23f39bc1a8df1a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:05 +0000
Subject: [PATCH 09/41] fix: do not throw if a synopsis consists of a single
 word

---
 include/sharg/detail/format_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_base.hpp b/include/sharg/detail/format_base.hpp
index 8689b44..d2a37c2 100644
--- a/include/sharg/detail/format_base.hpp
+++ b/include/sharg/detail/format_base.hpp
@@ -527,7 +527,7 @@ protected:
         {
             std::string text = "\\fB";
             text.append(meta.synopsis[i]);
-            text.insert(text.find_first_of(" \t"), "\\fP");
+            text.insert(std::min(text.find_first_of(" \t"), text.size()), "\\fP");
 
             derived_t().print_line(text, false);
         }
-- 
2.43.0


From 6f4d136a2a717ee26eb253d06a4c5d4c0c4fe67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:05 +0000
Subject: [PATCH 10/41] fix: always show advanced options when exporting the
 help page

---
 include/sharg/detail/format_html.hpp | 2 +-
 include/sharg/detail/format_man.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/format_html.hpp b/include/sharg/detail/format_html.hpp
index cfa93e4..1dc7793 100644
--- a/include/sharg/detail/format_html.hpp
+++ b/include/sharg/detail/format_html.hpp
@@ -48,7 +48,7 @@ public:
     //!\copydoc sharg::detail::format_help_base::format_help_base
     format_html(std::vector<std::string> const & names,
                 update_notifications const version_updates,
-                bool const advanced = false) :
+                bool const advanced = true) :
         base_type{names, version_updates, advanced} {};
     //!\}
 
diff --git a/include/sharg/detail/format_man.hpp b/include/sharg/detail/format_man.hpp
index 96843c2..2dce90e 100644
--- a/include/sharg/detail/format_man.hpp
+++ b/include/sharg/detail/format_man.hpp
@@ -49,7 +49,7 @@ public:
     //!\copydoc sharg::detail::format_help_base::format_help_base
     format_man(std::vector<std::string> const & names,
                update_notifications const version_updates,
-               bool const advanced = false) :
+               bool const advanced = true) :
         base_type{names, version_updates, advanced} {};
     //!\}
 
-- 
2.43.0


From b4122ef24a1313aa7a095573c3b0560631bb6de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:05 +0000
Subject: [PATCH 11/41] fix: throw if add_subcommands is called after parse

---
 include/sharg/parser.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 6bfa330..23ba465 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -650,6 +650,8 @@ public:
     /*!\brief Adds subcommands to the parser.
      * \param[in] subcommands A list of subcommands.
      * \details
+     * \throws sharg::design_error if sharg::parser::parse was already called.
+     *
      * Adds subcommands to the current parser. The list of subcommands is sorted and duplicates are removed.
      *
      * ### Example
@@ -660,6 +662,8 @@ public:
      */
     void add_subcommands(std::vector<std::string> const & subcommands)
     {
+        check_parse_not_called("add_subcommands");
+
         auto & parser_subcommands = this->subcommands;
         parser_subcommands.insert(parser_subcommands.end(), subcommands.cbegin(), subcommands.cend());
 
-- 
2.43.0


From 5395604266fafa4f7e53602fca38372e5d02bb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 12/41] fix: parse the arguments of a parser that was moved
 after adding options

---
 include/sharg/parser.hpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 23ba465..d0f94ab 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -243,14 +243,14 @@ public:
         check_parse_not_called("add_option");
         verify_option_config(config);
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](parser & self)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
                 f.add_option(value, config);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -279,14 +279,14 @@ public:
         if (value)
             throw design_error("A flag's default value must be false.");
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](parser & self)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
                 f.add_flag(value, config);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -330,14 +330,14 @@ public:
         if constexpr (detail::is_container_option<option_type>)
             has_positional_list_option = true; // keep track of a list option because there must be only one!
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](parser & self)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
                 f.add_positional_option(value, config);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -426,7 +426,7 @@ public:
 
         // Apply all defered operations to the parser, e.g., `add_option`, `add_flag`, `add_positional_option`.
         for (auto & operation : operations)
-            operation();
+            operation(*this);
 
         // The version check, which might exit the program, must be called before calling parse on the format.
         run_version_check();
@@ -542,14 +542,14 @@ public:
     {
         check_parse_not_called("add_section");
 
-        auto operation = [this, title, advanced_only]()
+        auto operation = [title, advanced_only](parser & self)
         {
             auto visit_fn = [&title, advanced_only](auto & f)
             {
                 f.add_section(title, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -569,14 +569,14 @@ public:
     {
         check_parse_not_called("add_subsection");
 
-        auto operation = [this, title, advanced_only]()
+        auto operation = [title, advanced_only](parser & self)
         {
             auto visit_fn = [&title, advanced_only](auto & f)
             {
                 f.add_subsection(title, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -597,14 +597,14 @@ public:
     {
         check_parse_not_called("add_line");
 
-        auto operation = [this, text, is_paragraph, advanced_only]()
+        auto operation = [text, is_paragraph, advanced_only](parser & self)
         {
             auto visit_fn = [&text, is_paragraph, advanced_only](auto & f)
             {
                 f.add_line(text, is_paragraph, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -634,14 +634,14 @@ public:
     {
         check_parse_not_called("add_list_item");
 
-        auto operation = [this, key, desc, advanced_only]()
+        auto operation = [key, desc, advanced_only](parser & self)
         {
             auto visit_fn = [&key, &desc, advanced_only](auto & f)
             {
                 f.add_list_item(key, desc, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -788,8 +788,8 @@ private:
     //!\brief Set of option identifiers (including -/--) that have been added via `add_option`.
     std::unordered_set<std::string> options{};
 
-    //!\brief Vector of functions that stores all calls.
-    std::vector<std::function<void()>> operations;
+    //!\brief Vector of functions that stores all calls. They receive the parser, because it might have been moved.
+    std::vector<std::function<void(parser &)>> operations;
 
     /*!\brief Handles format and subcommand detection.
      * \throws sharg::too_few_arguments if option --export-help was specified without a value
-- 
2.43.0


From 02614a1dcdb67b7768f1ada5c4a2bc6b508da090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 13/41] fix: do not read past the end of help page texts ending
 with a backslash

---
 include/sharg/detail/format_help.hpp | 16 ++++++++++++----
 include/sharg/detail/format_html.hpp | 28 +++++++++++++++++++---------
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 7f6d80c..92dbebd 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -227,16 +227,24 @@ protected:
             {
                 // Handle escape sequence, we interpret only "\-", "\fI", and "\fB".
                 ++it;
-                assert(it != str.end());
-                if (*it == '-')
+                if (it == str.end()) // not an escape sequence
+                {
+                    result.push_back('\\');
+                    break;
+                }
+                else if (*it == '-')
                 {
                     result.push_back(*it);
                 }
                 else if (*it == 'f')
                 {
                     ++it;
-                    assert(it != str.end());
-                    if (*it == 'I')
+                    if (it == str.end()) // not an escape sequence
+                    {
+                        result.append("\\f");
+                        break;
+                    }
+                    else if (*it == 'I')
                     {
                         if (stdout_is_terminal())
                             result.append("\033[4m");
diff --git a/include/sharg/detail/format_html.hpp b/include/sharg/detail/format_html.hpp
index 1dc7793..f65bd40 100644
--- a/include/sharg/detail/format_html.hpp
+++ b/include/sharg/detail/format_html.hpp
@@ -182,16 +182,24 @@ private:
             {
                 // Handle escape sequence, we interpret only "\-", "\fI", and "\fB".
                 ++it;
-                assert(!(it == input.end()));
-                if (*it == '-')
+                if (it == input.end()) // not an escape sequence
+                {
+                    result.push_back('\\');
+                    break;
+                }
+                else if (*it == '-')
                 {
                     result.push_back(*it);
                 }
                 else if (*it == 'f')
                 {
                     ++it;
-                    assert(!(it == input.end()));
-                    if (*it == 'I')
+                    if (it == input.end()) // not an escape sequence
+                    {
+                        result.append("\\f");
+                        break;
+                    }
+                    else if (*it == 'I')
                     {
                         open_tags.push_back("em");
                         result.append("<em>");
@@ -203,11 +211,13 @@ private:
                     }
                     else if (*it == 'P')
                     {
-                        assert(!open_tags.empty());
-                        result.append("</");
-                        result.append(open_tags.back());
-                        result.append(">");
-                        open_tags.pop_back();
+                        if (!open_tags.empty()) // there is nothing to close otherwise
+                        {
+                            result.append("</");
+                            result.append(open_tags.back());
+                            result.append(">");
+                            open_tags.pop_back();
+                        }
                     }
                     else
                     {
-- 
2.43.0


From 27c6a0c39d1159297f4e465dbfcb3267c2c078ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 14/41] fix: escape special characters in the exported HTML
 page

---
 include/sharg/detail/format_html.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sharg/detail/format_html.hpp b/include/sharg/detail/format_html.hpp
index f65bd40..1a57f2f 100644
--- a/include/sharg/detail/format_html.hpp
+++ b/include/sharg/detail/format_html.hpp
@@ -176,13 +176,13 @@ private:
         std::string result;
         std::vector<std::string> open_tags; // acts as a stack of html tags
 
-        for (auto it = input.begin(); it != input.end(); ++it)
+        for (auto it = buffer.begin(); it != buffer.end(); ++it)
         {
             if (*it == '\\')
             {
                 // Handle escape sequence, we interpret only "\-", "\fI", and "\fB".
                 ++it;
-                if (it == input.end()) // not an escape sequence
+                if (it == buffer.end()) // not an escape sequence
                 {
                     result.push_back('\\');
                     break;
@@ -194,7 +194,7 @@ private:
                 else if (*it == 'f')
                 {
                     ++it;
-                    if (it == input.end()) // not an escape sequence
+                    if (it == buffer.end()) // not an escape sequence
                     {
                         result.append("\\f");
                         break;
@@ -246,7 +246,7 @@ private:
      */
     std::string in_bold(std::string const & str)
     {
-        return "<strong>" + str + "</strong>";
+        return "\\fB" + str + "\\fP";
     }
 
     //!\brief Current state is either inside a html \<dl\> tag (true) or not (false).
-- 
2.43.0


From 9047c31a5533a65289e545f4e3a1517688d04c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 15/41] fix: do not remove files that are rejected by the
 output file validator

---
 include/sharg/validators.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index f448d51..26f3717 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -445,8 +445,7 @@ protected:
             throw validation_error{"\"" + path.string() + "\" is a directory. Cannot validate writeability."};
         // LCOV_EXCL_STOP
 
-        std::ofstream file{path};
-        sharg::detail::safe_filesystem_entry file_guard{path};
+        std::ofstream file{path, std::ios_base::app}; // Does not truncate existing files.
 
         bool is_open = file.is_open();
         bool is_good = file.good();
@@ -455,7 +454,12 @@ protected:
         if (!is_good || !is_open)
             throw validation_error{"Cannot write \"" + path.string() + "\"!"};
 
-        file_guard.remove();
+        // Never remove special files, e.g. /dev/null.
+        if (std::filesystem::is_regular_file(path))
+        {
+            sharg::detail::safe_filesystem_entry file_guard{path};
+            file_guard.remove();
+        }
     }
 
     //!\brief Returns the information of valid file extensions.
@@ -728,10 +732,11 @@ public:
             if ((open_mode == output_file_open_options::create_new) && std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" already exists!"};
 
+            // Check extension. Must be done first, because checking for write permissions may remove the file.
+            validate_filename(file);
+
             // Check if file has any write permissions.
             validate_writeability(file);
-
-            validate_filename(file);
         }
         // LCOV_EXCL_START
         catch (std::filesystem::filesystem_error & ex)
-- 
2.43.0


From 0ded537b105bfba765b99babc37536bb1f5d959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 16/41] fix: do not remove existing files when validating
 output directories

---
 include/sharg/validators.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 26f3717..b3a9948 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -930,7 +930,12 @@ public:
             }
             else
             {
-                validate_writeability(dir / "dummy.txt");
+                // Do not touch existing files.
+                std::filesystem::path dummy{dir / "dummy.txt"};
+                while (std::filesystem::exists(std::filesystem::symlink_status(dummy)))
+                    dummy += "_";
+
+                validate_writeability(dummy);
             }
         }
         // LCOV_EXCL_START
-- 
2.43.0


From cf10dc73b95f7e16777c1d2f3f01d61051b60c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 17/41] fix: match whole file extensions instead of arbitrary
 suffixes

---
 include/sharg/validators.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index b3a9948..7f42a01 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -392,7 +392,8 @@ protected:
         // Compares the extensions in lower case.
         auto case_insensitive_ends_with = [&](std::string const & ext)
         {
-            return case_insensitive_string_ends_with(file_path, ext);
+            bool const needs_dot{!ext.empty() && !ext.starts_with('.')};
+            return case_insensitive_string_ends_with(file_path, needs_dot ? "." + ext : ext);
         };
 
         // Check if requested extension is present.
-- 
2.43.0


From c84194285d0517528dbaccbaf09f9b06edd518aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:55 +0000
Subject: [PATCH 18/41] fix: accept paths containing spaces and quotes

---
 include/sharg/detail/format_parse.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 4d62816..ab5369f 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -404,6 +404,13 @@ private:
         value = in;
         return option_parse_result::success;
     }
+
+    // The stream operator of std::filesystem::path expects quoted paths, i.e. cannot read paths containing spaces.
+    option_parse_result parse_option_value(std::filesystem::path & value, std::string const & in)
+    {
+        value = in;
+        return option_parse_result::success;
+    }
     //!\endcond
 
     /*!\brief Parses the given option value and appends it to the target container.
-- 
2.43.0


From 7d09bd002b4e213e442d70aa2215f01ad5e96679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:55 +0000
Subject: [PATCH 19/41] fix: do not turn a cluster of short flags containing a
 dash into a long option

---
 include/sharg/detail/format_parse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index ab5369f..4a30af8 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -312,7 +312,8 @@ private:
         {
             std::string & arg = *it;
 
-            if (arg[0] == '-' && arg.size() > 1 && arg[1] != '-') // is option && not dash && no long option
+            // is option && not dash && no long option && does not become a long option when removing a flag
+            if (arg[0] == '-' && arg.size() > 1 && arg.find('-', 1) == std::string::npos)
             {
                 auto pos = arg.find(short_id);
 
-- 
2.43.0


From f2b9aacae6cfc65edfa0f185e1f209476d0564b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:51 +0000
Subject: [PATCH 20/41] fix: do not fail if a writable file cannot be removed

---
 include/sharg/validators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 7f42a01..f8086c0 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -458,8 +458,8 @@ protected:
         // Never remove special files, e.g. /dev/null.
         if (std::filesystem::is_regular_file(path))
         {
-            sharg::detail::safe_filesystem_entry file_guard{path};
-            file_guard.remove();
+            std::error_code ec{};
+            std::filesystem::remove(path, ec); // Writable files in read-only directories cannot be removed.
         }
     }
 
-- 
2.43.0


From 818d9ff46e592fb5f35522597d8ca4631da1f7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:52 +0000
Subject: [PATCH 21/41] fix: do not remove symbolic links when validating
 output files

---
 include/sharg/validators.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index f8086c0..6928fe2 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -446,6 +446,9 @@ protected:
             throw validation_error{"\"" + path.string() + "\" is a directory. Cannot validate writeability."};
         // LCOV_EXCL_STOP
 
+        // If the path is a dangling symbolic link, the target of the link is created.
+        bool const is_dangling_link = !std::filesystem::exists(path) && std::filesystem::is_symlink(path);
+
         std::ofstream file{path, std::ios_base::app}; // Does not truncate existing files.
 
         bool is_open = file.is_open();
@@ -459,7 +462,8 @@ protected:
         if (std::filesystem::is_regular_file(path))
         {
             std::error_code ec{};
-            std::filesystem::remove(path, ec); // Writable files in read-only directories cannot be removed.
+            std::filesystem::path const created_file = is_dangling_link ? std::filesystem::canonical(path) : path;
+            std::filesystem::remove(created_file, ec); // Writable files in read-only directories cannot be removed.
         }
     }
 
-- 
2.43.0


From 8ad734c52f6ba9cafc85684c7f08b81ab7e5d126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:48 +0000
Subject: [PATCH 22/41] fix: do not accept directories as input files

---
 include/sharg/validators.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 6928fe2..0152a35 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -576,6 +576,9 @@ public:
             if (!std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" does not exist!"};
 
+            if (std::filesystem::is_directory(file))
+                throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
+
             // Check if file is regular and can be opened for reading.
             validate_readability(file);
 
-- 
2.43.0


From e738ba1efe5ba1f4f13a05e0fa63d5258d0c35f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:48 +0000
Subject: [PATCH 23/41] fix: report paths that cannot be inspected as
 validation_error

---
 include/sharg/validators.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 0152a35..67c0c05 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -732,11 +732,11 @@ public:
      */
     virtual void operator()(std::filesystem::path const & file) const override
     {
-        if (std::filesystem::is_directory(file))
-            throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
-
         try
         {
+            if (std::filesystem::is_directory(file))
+                throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
+
             if ((open_mode == output_file_open_options::create_new) && std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" already exists!"};
 
@@ -920,16 +920,16 @@ public:
      */
     virtual void operator()(std::filesystem::path const & dir) const override
     {
-        bool dir_exists = std::filesystem::exists(dir);
-        // Make sure the created dir is deleted after we are done.
-        std::error_code ec;
-        std::filesystem::create_directory(dir, ec); // does nothing and is not treated as error if path already exists.
-        // if error code was set or if dummy.txt could not be created within the output dir, throw an error.
-        if (static_cast<bool>(ec))
-            throw validation_error{"Cannot create directory: \"" + dir.string() + "\"!"};
-
         try
         {
+            bool dir_exists = std::filesystem::exists(dir);
+            // Make sure the created dir is deleted after we are done.
+            std::error_code ec;
+            std::filesystem::create_directory(dir, ec); // does nothing and is not treated as error if path already exists.
+            // if error code was set or if dummy.txt could not be created within the output dir, throw an error.
+            if (static_cast<bool>(ec))
+                throw validation_error{"Cannot create directory: \"" + dir.string() + "\"!"};
+
             if (!dir_exists)
             {
                 sharg::detail::safe_filesystem_entry dir_guard{dir};
-- 
2.43.0


From 8c02501cfe6c2084d27637427fd48be5db2ff16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:59 +0000
Subject: [PATCH 24/41] fix: quote the path of the version file in the server
 call

---
 include/sharg/detail/version_check.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index e50e7cb..f86cc98 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -182,12 +182,15 @@ public:
             return;
         }
 
-        // 'cookie_path' is no user input and `name` is escaped on construction of the parser.
-        std::filesystem::path out_file = cookie_path / (name + ".version");
+        // `name` is escaped on construction of the parser. `cookie_path` may contain any character and must be quoted.
+        std::string out_file{"'"};
+        for (char const c : (cookie_path / (name + ".version")).string())
+            out_file += (c == '\'') ? std::string{"'\\''"} : std::string{c};
+        out_file += '\'';
 
         // build up command for server call
         std::string command = program + // no user defined input
-                              " " + out_file.string() + " "
+                              " " + out_file + " "
                             + std::string{"https://seqan-update.informatik.uni-tuebingen.de/check/SeqAn-Sharg_"} +
 #ifdef __linux
                               "Linux" +
-- 
2.43.0


From 95ef32291bde4103d4b978f119b47bb80fe90278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:59 +0000
Subject: [PATCH 25/41] fix: do not fail if there is no directory for temporary
 files

---
 include/sharg/detail/version_check.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index f86cc98..4b8878d 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -253,7 +253,10 @@ public:
 
         // .config/seqan cannot be created, try tmp directory.
         if (err)
-            tmp_path = temp_directory_path(); // choose temp dir instead
+            tmp_path = temp_directory_path(err); // choose temp dir instead
+
+        if (err) // There is no temp dir.
+            return {};
 
         // check if files can be written inside dir
         path dummy = tmp_path / "dummy.txt";
-- 
2.43.0


From dc4c04a57218198a944d72959e83d9afa25fa9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:59 +0000
Subject: [PATCH 26/41] fix: do not remove a file called dummy.txt when looking
 for updates

---
 include/sharg/detail/version_check.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 4b8878d..d723ad2 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -260,6 +260,9 @@ public:
 
         // check if files can be written inside dir
         path dummy = tmp_path / "dummy.txt";
+        while (exists(symlink_status(dummy, err))) // Do not touch existing files.
+            dummy += "_";
+
         std::ofstream file{dummy};
         sharg::detail::safe_filesystem_entry file_guard{dummy};
 
-- 
2.43.0


From 40463d221e9b530e2379fda4b66bdc91a1cda0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:59 +0000
Subject: [PATCH 27/41] fix: do not take the app version for the Sharg version
 if the latter is missing

---
 include/sharg/detail/version_check.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index d723ad2..c846cf1 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -143,8 +143,8 @@ public:
                 std::cerr << message_unregistered_app;
 #endif // !defined(NDEBUG)
 
-            std::getline(version_file, line); // get second line which should only contain the version number of sharg
-            srv_sharg_version = get_numbers_from_version_string(line);
+            if (std::getline(version_file, line)) // second line which should only contain the version number of sharg
+                srv_sharg_version = get_numbers_from_version_string(line);
 
             version_file.close();
         }
-- 
2.43.0


From 7ecdd66aac9e6ee50d21abfabb9a9771f8280838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:57 +0000
Subject: [PATCH 28/41] fix: do not abort if the directory for the cookies
 cannot be searched

The guard of the dummy file was created even if the file could not be, and
its destructor asserts that removing it raises no error.
---
 include/sharg/detail/version_check.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index c846cf1..79b4f4c 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -264,14 +264,16 @@ public:
             dummy += "_";
 
         std::ofstream file{dummy};
+        if (!file.is_open()) // no write permissions, there is nothing to clean up
+            return {};
+
         sharg::detail::safe_filesystem_entry file_guard{dummy};
 
-        bool is_open = file.is_open();
         bool is_good = file.good();
         file.close();
         file_guard.remove_no_throw();
 
-        if (!is_good || !is_open) // no write permissions
+        if (!is_good) // no write permissions
         {
             tmp_path.clear(); // empty path signals no available directory to write to, version check will not be done
         }
-- 
2.43.0


From 15680c5bcafa77bd66cf6d69530b57ac20252a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:44 +0000
Subject: [PATCH 29/41] fix: end the line of help page elements without a text

The element behind an option, flag, list item or line without a text was
printed in the same line.
---
 include/sharg/detail/format_help.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 92dbebd..5998c7a 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -196,6 +196,14 @@ protected:
         // Print term.
         std::fill_n(out, layout.leftPadding, ' ');
         std::cout << to_text(term);
+        prev_was_paragraph = false;
+
+        if (desc.empty()) // There is nothing to print in the right column.
+        {
+            std::cout << '\n';
+            return;
+        }
+
         unsigned pos = layout.leftPadding + term.size();
         if (pos + layout.centerPadding > layout.rightColumnTab)
         {
@@ -204,8 +212,6 @@ protected:
         }
         std::fill_n(out, layout.rightColumnTab - pos, ' ');
         print_text(desc, layout.rightColumnTab);
-
-        prev_was_paragraph = false;
     }
 
     //!\brief Prints a help page footer to std::cout.
@@ -377,8 +383,7 @@ protected:
                 }
             }
         }
-        if (!empty(tokens))
-            std::cout << '\n';
+        std::cout << '\n';
     }
 
     /*!\brief Format string in bold.
-- 
2.43.0


From 58fd2d9b555fe9c1d15caa6b7a9908f8563096ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:44 +0000
Subject: [PATCH 30/41] fix: do not misalign help page texts that start with a
 long word

A first word that does not fit into a line was followed by an empty line or by
a line that was indented by an additional space.
---
 include/sharg/detail/format_help.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 5998c7a..12c13f5 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -358,12 +358,6 @@ protected:
             {
                 std::cout << to_text(*it);
                 pos += text_width(*it);
-                if (pos > layout.screenWidth)
-                {
-                    std::cout << '\n';
-                    std::fill_n(out, tab, ' ');
-                    pos = tab;
-                }
             }
             else
             {
-- 
2.43.0


From ba95def9fe4172953d09395c6ce350418554a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:44 +0000
Subject: [PATCH 31/41] fix: compute the width of help page texts with
 backslashes as they are printed

`\x` is printed as two characters but was counted as one, such that the lines
became too long.
---
 include/sharg/detail/format_help.hpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 12c13f5..588d7f7 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -305,29 +305,22 @@ protected:
             if (i + 1 == text.size())
             {
                 result += 1; // Will print "\\".
-                continue;
             }
-
-            if (text[i + 1] == '\\' || text[i + 1] == '-')
+            else if (text[i + 1] == '-')
             {
                 i += 1;
-                result += 1;
-                continue; // Will print '\\' or '-'.
+                result += 1; // Will print '-'.
             }
-
-            if (i + 2 == text.size())
+            else if (text[i + 1] == 'f' && i + 2 < text.size())
             {
-                i += 1;
-                result += 2; // Will print two chars.
-                continue;
+                if (text[i + 2] != 'B' && text[i + 2] != 'I' && text[i + 2] != 'P')
+                    result += 3; // Will print three chars.
+                i += 2;
             }
-
-            if (text[i + 1] == 'f')
+            else
             {
-                if (text[i + 2] == 'B' || text[i + 2] == 'I' || text[i + 2] == 'P')
-                    i += 2; // Skip f and {B, I, P}.
-                else
-                    result += 1;
+                i += 1;
+                result += 2; // Will print two chars.
             }
         }
 
-- 
2.43.0


From 27dedf48960e996f4f86b44a1bacaae67018ab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:18 +0000
Subject: [PATCH 32/41] fix: close all tags in the exported HTML page

A text with \fB or \fI but without the corresponding \fP formatted the rest of
the page.
---
 include/sharg/detail/format_html.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sharg/detail/format_html.hpp b/include/sharg/detail/format_html.hpp
index 1a57f2f..965a2f0 100644
--- a/include/sharg/detail/format_html.hpp
+++ b/include/sharg/detail/format_html.hpp
@@ -237,6 +237,9 @@ private:
             }
         }
 
+        for (; !open_tags.empty(); open_tags.pop_back()) // close all remaining tags
+            result.append("</" + open_tags.back() + ">");
+
         return result;
     }
 
-- 
2.43.0


From 73fd1ccf12f4bbc715ff8393d3f94013e26abdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:18 +0000
Subject: [PATCH 33/41] fix: do not lose texts in the exported man page

Texts that start with a dot or a single quote were taken for requests, and the
text following \" (e.g. in the default value of a string) for a comment.
---
 include/sharg/detail/format_man.hpp | 31 +++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/format_man.hpp b/include/sharg/detail/format_man.hpp
index 2dce90e..42ff7b5 100644
--- a/include/sharg/detail/format_man.hpp
+++ b/include/sharg/detail/format_man.hpp
@@ -122,7 +122,7 @@ private:
         else if (!is_first_in_section && !line_is_paragraph)
             std::cout << ".br\n";
 
-        std::cout << text << "\n";
+        std::cout << to_man(text) << "\n";
         is_first_in_section = false;
     }
 
@@ -137,7 +137,7 @@ private:
      */
     void print_list_item(std::string const & term, std::string const & desc)
     {
-        std::cout << ".TP\n" << term << "\n" << desc << "\n";
+        std::cout << ".TP\n" << to_man(term) << "\n" << to_man(desc) << "\n";
         is_first_in_section = false;
     }
 
@@ -147,6 +147,33 @@ private:
         // no footer
     }
 
+    /*!\brief Escapes what would be taken for a request or a comment and hence would not be shown.
+     * \param[in] input The text to transform.
+     */
+    std::string to_man(std::string const & input)
+    {
+        std::string result;
+
+        for (auto it = input.begin(); it != input.end(); ++it)
+        {
+            // A request starts with `.` or `'` at the beginning of a line.
+            if ((*it == '.' || *it == '\'') && (it == input.begin() || *std::prev(it) == '\n'))
+                result.append("\\&");
+
+            result.push_back(*it);
+
+            if (*it == '\\' && std::next(it) != input.end())
+            {
+                ++it;
+                if (*it == '"') // A comment starts with `\"`.
+                    result.push_back('\\');
+                result.push_back(*it);
+            }
+        }
+
+        return result;
+    }
+
     /*!\brief Format string as in_bold.
      * \param[in] str The input string to format in bold.
      * \returns The string `str` wrapped in bold formatting.
-- 
2.43.0


From 5210fb4e25c79b6b23f1e81d9d4d0f2898fbd7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:59 +0000
Subject: [PATCH 34/41] fix: print lists of 8 bit integers as numbers

The elements of the default value and of value_list_validator were printed as
characters.
---
 include/sharg/detail/to_string.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/sharg/detail/to_string.hpp b/include/sharg/detail/to_string.hpp
index a8e90a6..e6dbd89 100644
--- a/include/sharg/detail/to_string.hpp
+++ b/include/sharg/detail/to_string.hpp
@@ -41,7 +41,17 @@ std::string to_string(value_types &&... values)
 {
     std::stringstream stream;
 
-    auto print = [&stream](auto && val)
+    auto print_value = [&stream](auto && val)
+    {
+        using value_t = std::remove_cvref_t<decltype(val)>;
+
+        if constexpr (std::is_same_v<value_t, int8_t> || std::is_same_v<value_t, uint8_t>)
+            stream << static_cast<int16_t>(val);
+        else
+            stream << val;
+    };
+
+    auto print = [&stream, &print_value](auto && val)
     {
         using value_t = std::remove_cvref_t<decltype(val)>;
 
@@ -57,19 +67,18 @@ std::string to_string(value_types &&... values)
             {
                 stream << '[';
                 auto it = val.begin();
-                stream << *it++;
+                print_value(*it++);
                 for (; it != val.end(); ++it)
-                    stream << ", " << *it;
+                {
+                    stream << ", ";
+                    print_value(*it);
+                }
                 stream << ']';
             }
         }
-        else if constexpr (std::is_same_v<value_t, int8_t> || std::is_same_v<value_t, uint8_t>)
-        {
-            stream << static_cast<int16_t>(val);
-        }
         else
         {
-            stream << val;
+            print_value(val);
         }
     };
 
-- 
2.43.0


From 2fd03afe93774f6c8d4a7c7a24fc0444c1fcc664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:12 +0000
Subject: [PATCH 35/41] fix: name the positional list option that failed the
 validation

---
 include/sharg/detail/format_parse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 4a30af8..998f236 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -835,6 +835,7 @@ private:
     void get_positional_option(option_type & value, validator_type && validator)
     {
         ++positional_option_count;
+        unsigned const option_number{positional_option_count}; // The count includes every value of a list.
         auto it = std::find_if(arguments.begin(),
                                arguments.end(),
                                [](std::string const & s)
@@ -885,7 +886,7 @@ private:
         }
         catch (std::exception & ex)
         {
-            throw validation_error("Validation failed for positional option " + std::to_string(positional_option_count)
+            throw validation_error("Validation failed for positional option " + std::to_string(option_number)
                                    + ": " + ex.what());
         }
     }
-- 
2.43.0


From 42c2964c6356e4d7f4aa2f99fb670f1579ac88af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:12 +0000
Subject: [PATCH 36/41] fix: print the valid range of floating point options

---
 include/sharg/detail/format_parse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 998f236..4cceb84 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -528,7 +528,7 @@ private:
             if (res == option_parse_result::overflow_error)
             {
                 throw user_input_error{msg + "Numeric argument " + input_value + " is not in the valid range ["
-                                       + std::to_string(std::numeric_limits<option_type>::min()) + ","
+                                       + std::to_string(std::numeric_limits<option_type>::lowest()) + ","
                                        + std::to_string(std::numeric_limits<option_type>::max()) + "]."};
             }
         }
-- 
2.43.0


From f5f045258471ea9587e630b56edee763f298fb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:12 +0000
Subject: [PATCH 37/41] fix: do not read past the end of enumeration names that
 are not null-terminated

---
 include/sharg/detail/format_parse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 4cceb84..0988812 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -384,7 +384,7 @@ private:
 
                 std::string result{'['};
                 for (auto const & [key, value] : key_value_pairs)
-                    result += std::string{key.data()} + ", ";
+                    result += std::string{key} + ", ";
                 result.replace(result.size() - 2, 2, "]"); // replace last ", " by "]"
                 return result;
             }();
-- 
2.43.0


From d26920a5664308e90eeab35e25867049fcf8b9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:10 +0000
Subject: [PATCH 38/41] fix: remove a tested output directory even if the umask
 makes it unreadable

---
 include/sharg/detail/safe_filesystem_entry.hpp | 4 +++-
 include/sharg/validators.hpp                   | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/safe_filesystem_entry.hpp b/include/sharg/detail/safe_filesystem_entry.hpp
index 2c7104f..e08be4f 100644
--- a/include/sharg/detail/safe_filesystem_entry.hpp
+++ b/include/sharg/detail/safe_filesystem_entry.hpp
@@ -53,7 +53,9 @@ public:
     ~safe_filesystem_entry()
     {
         std::error_code ec;
-        std::filesystem::remove_all(entry, ec);
+        // Files and empty directories can be removed without being readable.
+        if (!std::filesystem::remove(entry, ec))
+            std::filesystem::remove_all(entry, ec);
 
         assert(!static_cast<bool>(ec));
     }
diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 67c0c05..2d25b64 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -934,7 +934,7 @@ public:
             {
                 sharg::detail::safe_filesystem_entry dir_guard{dir};
                 validate_writeability(dir / "dummy.txt");
-                dir_guard.remove_all();
+                dir_guard.remove(); // The directory is empty.
             }
             else
             {
-- 
2.43.0


From c34e8a95d0a428463ffa7883e614239eae722dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:26 +0000
Subject: [PATCH 39/41] fix: export default paths of tool descriptions without
 quotes

---
 include/sharg/detail/format_tdl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_tdl.hpp b/include/sharg/detail/format_tdl.hpp
index 418ae3a..8a1af42 100644
--- a/include/sharg/detail/format_tdl.hpp
+++ b/include/sharg/detail/format_tdl.hpp
@@ -187,7 +187,7 @@ public:
         }
         if constexpr (std::same_as<std::filesystem::path, option_type>)
         {
-            auto valueAsStr = to_string(value);
+            auto valueAsStr = value.string();
             store_help_page_element(
                 [this, config, description, valueAsStr, _tags = tags](std::string_view)
                 {
-- 
2.43.0


From 07752e499de48f170adca085f536b4d217af3568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:26 +0000
Subject: [PATCH 40/41] fix: mark advanced flags as advanced in tool
 descriptions

---
 include/sharg/detail/format_tdl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_tdl.hpp b/include/sharg/detail/format_tdl.hpp
index 8a1af42..740c5e2 100644
--- a/include/sharg/detail/format_tdl.hpp
+++ b/include/sharg/detail/format_tdl.hpp
@@ -253,7 +253,7 @@ public:
                 parameters.push_back(tdl::Node{
                     .name = config.long_id,
                     .description = config.description,
-                    .tags = {},
+                    .tags = config.advanced ? std::set<std::string>{"advanced"} : std::set<std::string>{},
                     .value = to_tdl(value),
                 });
             },
-- 
2.43.0


From ba763c64c40c086e42d2c2504c1ded22b74bd65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:26 +0000
Subject: [PATCH 41/41] fix: name options without a long identifier in tool
 descriptions

---
 include/sharg/detail/format_tdl.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/sharg/detail/format_tdl.hpp b/include/sharg/detail/format_tdl.hpp
index 740c5e2..39cac7f 100644
--- a/include/sharg/detail/format_tdl.hpp
+++ b/include/sharg/detail/format_tdl.hpp
@@ -215,12 +215,12 @@ public:
                     }
 
                     parameters.push_back(tdl::Node{
-                        .name = config.long_id,
+                        .name = node_name(config),
                         .description = description,
                         .tags = std::move(tags),
                         .value = tdl::StringValue{valueAsStr},
                     });
-                    info.cliMapping.emplace_back("--" + config.long_id, config.long_id);
+                    info.cliMapping.emplace_back((config.long_id.empty() ? "-" : "--") + node_name(config), node_name(config));
                 },
                 config);
         }
@@ -230,12 +230,12 @@ public:
                 [this, config, value, description, tags](std::string_view)
                 {
                     parameters.push_back(tdl::Node{
-                        .name = config.long_id,
+                        .name = node_name(config),
                         .description = description,
                         .tags = std::move(tags),
                         .value = to_tdl(value),
                     });
-                    info.cliMapping.emplace_back("--" + config.long_id, config.long_id);
+                    info.cliMapping.emplace_back((config.long_id.empty() ? "-" : "--") + node_name(config), node_name(config));
                 },
                 config);
         }
@@ -251,7 +251,7 @@ public:
             [this, config, value](std::string_view)
             {
                 parameters.push_back(tdl::Node{
-                    .name = config.long_id,
+                    .name = node_name(config),
                     .description = config.description,
                     .tags = config.advanced ? std::set<std::string>{"advanced"} : std::set<std::string>{},
                     .value = to_tdl(value),
@@ -403,6 +403,13 @@ public:
     {}
 
 private:
+    //!\brief The name of an option or flag: its long identifier or, if there is none, its short identifier.
+    template <typename validator_t>
+    static std::string node_name(config<validator_t> const & config)
+    {
+        return config.long_id.empty() ? std::string(1u, config.short_id) : config.long_id;
+    }
+
     /*!\brief Adds a function object to parser_set_up_calls **if** the annotation in `spec` does not prevent it.
      * \param[in] printer The invokable that, if added to `parser_set_up_calls`, prints information to the help page.
      * \param[in] config The option specification deciding whether to add the information to the help page.
-- 
2.43.0

