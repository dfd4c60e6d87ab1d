From 1d6f5c2e1a45afb883b685e3138615cb16a025ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 01/53] fix: fail dependents when a recipe cannot be launched,
 instead of waiting forever

---
 core/db/task_list.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/db/task_list.cpp b/core/db/task_list.cpp
index b53f714..a7a4a25 100644
--- a/core/db/task_list.cpp
+++ b/core/db/task_list.cpp
@@ -95,6 +95,13 @@ size_t Maike::Db::TaskList::process(Sched::ThreadPool& workers,
 				                 task_results = m_results.get(),
 				                 at_exit = ScopeExitHandler{[&e]() { e.set(); }}]() mutable {
 					auto const index = task.node().id().value();
+					// In case an exception is thrown, for example because the recipe could not be launched, any
+					// depending task has to be notified that this task has failed. Otherwise, it would wait
+					// forever.
+					ScopeExitHandler store_result{[task_results, index]() {
+						if(task_results[index] == TaskResult::Pending)
+						{ task_results[index] = TaskResult::Failure; }
+					}};
 					if(auto result = task.runIfNecessary(force_recompilation, invoker); result)
 					{
 						auto const build_failed = failed(*result);
-- 
2.43.0


From f5d1f7a865cb48062c9e91b2d48f9434e9a1f50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:08 +0000
Subject: [PATCH 02/53] fix: quote printed commands so that a POSIX shell reads
 back the same arguments

---
 core/exec/command.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/exec/command.cpp b/core/exec/command.cpp
index bf14826..50f987f 100644
--- a/core/exec/command.cpp
+++ b/core/exec/command.cpp
@@ -12,8 +12,12 @@ namespace
 	{
 		std::string ret{"'"};
 		std::for_each(std::begin(str), std::end(str), [&ret](auto ch_in) {
-			if(ch_in == '\\' || ch_in == '\'') { ret += '\\'; }
-			ret += ch_in;
+			// Within single quotes, every character except a single quote is taken literally by the shell
+			if(ch_in == '\'') { ret += "'\\''"; }
+			else
+			{
+				ret += ch_in;
+			}
 		});
 		ret += "'";
 
-- 
2.43.0


From 97af75d3b2270ecc36d1b032902baf49ebffff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:08 +0000
Subject: [PATCH 03/53] fix: read recipe output larger than one buffer, and
 stop at its end

---
 core/db/compiler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/db/compiler.cpp b/core/db/compiler.cpp
index 7aa9e8f..fe3c618 100644
--- a/core/db/compiler.cpp
+++ b/core/db/compiler.cpp
@@ -47,6 +47,7 @@ namespace
 		auto const bytes_left = std::size(reader.buffer.get()) - reader.read_offset;
 		auto const bytes_to_read = std::min(n, bytes_left);
 		memcpy(output, reader.buffer.get().data() + reader.read_offset, bytes_to_read);
+		reader.read_offset += bytes_to_read;
 
 		return bytes_to_read;
 	}
-- 
2.43.0


From 302153d54aa75911b77cdcebf233217839783cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:08 +0000
Subject: [PATCH 04/53] fix: do not drop the last bytes of a JSON document that
 lacks a closing bracket

---
 core/key_value_store/json_handle.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/key_value_store/json_handle.cpp b/core/key_value_store/json_handle.cpp
index eaf5906..683d28a 100644
--- a/core/key_value_store/json_handle.cpp
+++ b/core/key_value_store/json_handle.cpp
@@ -31,7 +31,7 @@ namespace
 	class ReadHelper
 	{
 	public:
-		explicit ReadHelper(Maike::Io::Reader reader): m_buffer{reader}, m_has_data{false}
+		explicit ReadHelper(Maike::Io::Reader reader): m_buffer{reader}, m_has_data{false}, m_eof{false}
 		{
 		}
 
@@ -39,10 +39,15 @@ namespace
 		{
 			size_t n_written = 0;
 			auto const buffer_init = buffer;
-			while(n_written != n)
+			while(n_written != n && !m_eof)
 			{
 				auto ch_in = m_buffer.getchar();
-				if(ch_in == -1) { return 0; }
+				if(ch_in == -1)
+				{
+					// Do not discard what has been read so far. The source must not be read again.
+					m_eof = true;
+					break;
+				}
 
 				*buffer = static_cast<std::byte>(ch_in);
 				++buffer;
@@ -64,6 +69,7 @@ namespace
 	private:
 		Maike::Io::InputBuffer<Maike::Io::Reader> m_buffer;
 		bool m_has_data;
+		bool m_eof;
 	};
 }
 
-- 
2.43.0


From 50744e59d62533e3123ebe6372d7b01fcb4aaa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:35 +0000
Subject: [PATCH 05/53] fix: let true and false override each other when
 compounds are merged

---
 core/key_value_store/compound.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/key_value_store/compound.cpp b/core/key_value_store/compound.cpp
index 1f59a9f..7178dfa 100644
--- a/core/key_value_store/compound.cpp
+++ b/core/key_value_store/compound.cpp
@@ -7,12 +7,24 @@
 
 #include <algorithm>
 
+namespace
+{
+	// JSON uses two different types to represent booleans. These can still override each other.
+	bool compatible(Maike::KeyValueStore::Type a, Maike::KeyValueStore::Type b)
+	{
+		auto const is_bool = [](auto type) {
+			return type == Maike::KeyValueStore::Type::True || type == Maike::KeyValueStore::Type::False;
+		};
+		return a == b || (is_bool(a) && is_bool(b));
+	}
+}
+
 Maike::KeyValueStore::Compound& Maike::KeyValueStore::operator|=(Compound& a, CompoundRefConst b)
 {
 	std::for_each(std::begin(b), std::end(b), [&a](auto const& item) {
 		if(auto item_in_a = a.getIfAny(item.first); item_in_a)
 		{
-			if(item_in_a->type() != item.second.type()) { throw std::runtime_error{"Type mismatch"}; }
+			if(!compatible(item_in_a->type(), item.second.type())) { throw std::runtime_error{"Type mismatch"}; }
 
 			switch(item_in_a->type())
 			{
-- 
2.43.0


From ddcc806061d1191972be6691031fd04e409f6000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 06/53] fix: close a recipe's stdin, and do not leak its pipes
 into other recipes

---
 core/exec/execve.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index a634dd4..cd26da9 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -27,7 +27,8 @@ namespace
 		Pipe()
 		{
 			int fds[2];
-			if(pipe(fds) == -1) { throw "Failed to create pipe"; }
+			// Use O_CLOEXEC so that no other process started at the same time holds the pipe open
+			if(pipe2(fds, O_CLOEXEC) == -1) { throw std::runtime_error{"Failed to create pipe"}; }
 			m_read_end = fds[0];
 			m_write_end = fds[1];
 		}
@@ -132,12 +133,14 @@ namespace
 
 
 	Maike::Exec::ExitStatus communicateWith(
-	   pid_t pid, Maike::Io::Redirector const& io_redirector, int stdin, int stdout, int stderr)
+	   pid_t pid, Maike::Io::Redirector const& io_redirector, Pipe& stdin, int stdout, int stderr)
 	{
 		signal(SIGPIPE, SIG_IGN);
 		std::thread stderr_proc{read, io_redirector.handle(), stderr, io_redirector.stderr()};
 		std::thread stdout_proc{read, io_redirector.handle(), stdout, io_redirector.stdout()};
-		write(io_redirector.handle(), stdin, io_redirector.stdin());
+		write(io_redirector.handle(), stdin.writeEnd(), io_redirector.stdin());
+		// Nothing more to write. Close stdin, so a process that reads until end of file can exit.
+		stdin.closeWriteEnd();
 
 		int status;
 		if(::waitpid(pid, &status, 0) == -1) { abort(); }
@@ -212,6 +215,8 @@ Maike::Exec::ExitStatus Maike::Exec::execve(fs::path const& executable,
 	uint32_t val{};
 	if(auto n = exec_err.read(&val, sizeof(val)); n == sizeof(val))
 	{
+		int status;
+		(void)::waitpid(pid, &status, 0);
 		errno = val;
 		std::string msg{"Failed to launch '"};
 		msg += executable;
@@ -224,7 +229,7 @@ Maike::Exec::ExitStatus Maike::Exec::execve(fs::path const& executable,
 	stdout.closeWriteEnd();
 	stderr.closeWriteEnd();
 
-	return communicateWith(pid, io_redirector, stdin.writeEnd(), stdout.readEnd(), stderr.readEnd());
+	return communicateWith(pid, io_redirector, stdin, stdout.readEnd(), stderr.readEnd());
 }
 
 namespace
-- 
2.43.0


From c7f68a7211723c2b6a2d83ef3ffed51d21e07b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 07/53] fix: do not cut recipe output in the log at a null byte

---
 core/db/compilation_log.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/db/compilation_log.cpp b/core/db/compilation_log.cpp
index 6708e9f..fd214e1 100644
--- a/core/db/compilation_log.cpp
+++ b/core/db/compilation_log.cpp
@@ -75,8 +75,8 @@ Maike::Db::CompilationLog& Maike::Db::CompilationLog::write(Task const& task,
 	append_log(stdout_buff, result.stdout());
 
 	std::lock_guard lock{m_output_mutex};
-	fputs(stdout_buff.c_str(), stdout);
-	fputs(stderr_buff.c_str(), stderr);
+	fwrite(stdout_buff.data(), 1, std::size(stdout_buff), stdout);
+	fwrite(stderr_buff.data(), 1, std::size(stderr_buff), stderr);
 	return *this;
 }
 
@@ -105,7 +105,7 @@ Maike::Db::CompilationLog& Maike::Db::CompilationLog::write(Task const& task)
 	stdout_buff += '\n';
 
 	std::lock_guard lock{m_output_mutex};
-	fputs(stdout_buff.c_str(), stdout);
+	fwrite(stdout_buff.data(), 1, std::size(stdout_buff), stdout);
 	return *this;
 }
 
-- 
2.43.0


From 40a84988c9977eb11cef8fb2bbfdf655337fe8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:48 +0000
Subject: [PATCH 08/53] fix: find exactly the include directives and tags that
 are outside comments and literals

Directives without argument swallowed the next line, any directive with a quoted argument was taken for
an include, and comments or raw strings ended (or did not end) at the wrong place.
---
 .../cxx/source_file_loader.cpp                | 193 ++++++++++++------
 1 file changed, 130 insertions(+), 63 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 5a8dfee..0653ac0 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -19,6 +19,13 @@ namespace
 		}
 		return Maike::Db::SourceFileOrigin::Project;
 	}
+
+	// Used to tell a digit separator from the beginning of a character literal
+	bool isIdentifierChar(int ch)
+	{
+		return (ch >= '0' && ch <= '9') || (ch >= 'A' && ch <= 'Z') || (ch >= 'a' && ch <= 'z')
+		       || ch == '_';
+	}
 }
 
 std::vector<Maike::Db::Dependency>
@@ -29,11 +36,12 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 	enum class State : int
 	{
 		Newline,
-		CommentFirst,
 		SkipLine,
+		CommentLine,
 		CommentBlock,
 		CommentBlockPreEnd,
-		RawStringBegin,
+		StringLiteral,
+		CharLiteral,
 		RawStringTag,
 		RawString,
 		RawStringPreEnd,
@@ -48,6 +56,9 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 	std::string raw_string_end_mark;
 	std::string preproc_directive;
 	std::string include_path;
+	// The character before ch_in, as long as it can be part of the same token
+	auto ch_prev = 0;
+	auto escape = false;
 
 	while(true)
 	{
@@ -59,13 +70,9 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 			case State::Newline:
 				switch(ch_in)
 				{
-					case '/': state = State::CommentFirst; break;
+					case '"': state = State::StringLiteral; break;
 
-					case 'R':
-						state = State::RawStringBegin;
-						raw_string_tag.clear();
-						raw_string_end_mark.clear();
-						break;
+					case '\'': state = State::CharLiteral; break;
 
 					case '#':
 						state = State::PrePreprocessorDirective;
@@ -73,33 +80,40 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						break;
 
 					default:
-						if(!(ch_in >= '\0' && ch_in <= ' ')) { state = State::SkipLine; }
+						if(!(ch_in >= '\0' && ch_in <= ' '))
+						{
+							state = State::SkipLine;
+							ch_prev = ch_in;
+						}
 						break;
 				}
 				break;
 
-			case State::CommentFirst:
-				switch(ch_in)
-				{
-					case '*': state = State::CommentBlock; break;
-					case '\n': state = State::Newline; break;
-
-					default: state = State::SkipLine;
-				}
-				break;
-
 			case State::SkipLine:
 				switch(ch_in)
 				{
 					case '\n': state = State::Newline; break;
-					case 'R':
+					case '"':
 						raw_string_tag.clear();
 						raw_string_end_mark.clear();
-						state = State::RawStringBegin;
+						state = ch_prev == 'R' ? State::RawStringTag : State::StringLiteral;
+						break;
+					case '\'':
+						if(!isIdentifierChar(ch_prev)) { state = State::CharLiteral; }
+						break;
+					case '/':
+						if(ch_prev == '/') { state = State::CommentLine; }
+						break;
+					case '*':
+						if(ch_prev == '/') { state = State::CommentBlock; }
 						break;
-					case '/': state = State::CommentFirst; break;
 					default: break;
 				}
+				ch_prev = state == State::SkipLine ? ch_in : 0;
+				break;
+
+			case State::CommentLine:
+				if(ch_in == '\n') { state = State::Newline; }
 				break;
 
 			case State::CommentBlock:
@@ -113,17 +127,26 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				switch(ch_in)
 				{
 					case '/': state = State::SkipLine; break;
+					case '*': break;
 					case '\n': state = State::CommentBlock; break;
 					default: state = State::CommentBlock; break;
 				}
 				break;
 
-			case State::RawStringBegin:
-				switch(ch_in)
+			case State::StringLiteral:
+			case State::CharLiteral:
+				if(escape) { escape = false; }
+				else if(ch_in == '\\')
 				{
-					case '"': state = State::RawStringTag; break;
-					case '\n': state = State::Newline; break;
-					default: state = State::SkipLine;
+					escape = true;
+				}
+				else if(ch_in == '\n')
+				{
+					state = State::Newline;
+				}
+				else if(ch_in == (state == State::StringLiteral ? '"' : '\''))
+				{
+					state = State::SkipLine;
 				}
 				break;
 
@@ -151,14 +174,20 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						raw_string_end_mark.clear();
 						break;
 
-					case '\n': state = State::RawString; break;
+					case '\n':
+						state = State::RawString;
+						raw_string_end_mark.clear();
+						break;
+
+					case ')': raw_string_end_mark.clear(); break;
 
 					default: raw_string_end_mark += ch_in;
 				}
 				break;
 
 			case State::PrePreprocessorDirective:
-				if(!(ch_in >= '\0' && ch_in <= ' '))
+				if(ch_in == '\n') { state = State::Newline; }
+				else if(!(ch_in >= '\0' && ch_in <= ' '))
 				{
 					preproc_directive += ch_in;
 					state = State::PreprocessorDirective;
@@ -170,9 +199,16 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				{
 					case '<':
 						state = preproc_directive == "include" ? State::IncludeSystem : State::SkipLine;
+						include_path.clear();
 						break;
 					case '"':
-						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
+						state = preproc_directive == "include" ? State::IncludeProject : State::StringLiteral;
+						include_path.clear();
+						break;
+					case '\n': state = State::Newline; break;
+					case '/':
+						state = State::SkipLine;
+						ch_prev = ch_in;
 						break;
 					default:
 						if(ch_in >= '\0' && ch_in <= ' ') { state = State::PreprocessorDirectivePreArg; }
@@ -189,14 +225,23 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				{
 					case '\n': state = State::Newline; break;
 
-					case '"': state = State::IncludeProject; break;
+					case '"':
+						state = preproc_directive == "include" ? State::IncludeProject : State::StringLiteral;
+						include_path.clear();
+						break;
 
-					case '<': state = State::IncludeSystem; break;
+					case '<':
+						state = preproc_directive == "include" ? State::IncludeSystem : State::SkipLine;
+						include_path.clear();
+						break;
+
+					case '\'': state = State::CharLiteral; break;
 
 					default:
 						if(!(ch_in >= '\0' && ch_in <= ' '))
 						{
 							state = State::SkipLine;
+							ch_prev = ch_in;
 							break;
 						}
 				}
@@ -256,10 +301,11 @@ void Cxx::SourceFileLoader::filterInput(
 		TagSymbol,
 		Tag,
 		SkipLine,
+		CommentLine,
 		CommentBlock,
 		CommentBlockPreEnd,
-		CommentFirstSkipLine,
-		RawStringBegin,
+		StringLiteral,
+		CharLiteral,
 		RawStringTag,
 		RawString,
 		RawStringPreEnd
@@ -267,6 +313,9 @@ void Cxx::SourceFileLoader::filterInput(
 	auto state = State::Newline;
 	std::string raw_string_tag;
 	std::string raw_string_end_mark;
+	// The character before ch_in, as long as it can be part of the same token
+	auto ch_prev = 0;
+	auto escape = false;
 	while(true)
 	{
 		auto ch_in = input_buff.getchar();
@@ -285,14 +334,16 @@ void Cxx::SourceFileLoader::filterInput(
 						tags.putchar(' ');
 						break;
 
-					case 'R':
-						state = State::RawStringBegin;
-						raw_string_tag.clear();
-						raw_string_end_mark.clear();
-						break;
+					case '"': state = State::StringLiteral; break;
+
+					case '\'': state = State::CharLiteral; break;
 
 					default:
-						if(!(ch_in >= '\0' && ch_in <= ' ')) { state = State::SkipLine; }
+						if(!(ch_in >= '\0' && ch_in <= ' '))
+						{
+							state = State::SkipLine;
+							ch_prev = ch_in;
+						}
 						else
 						{
 							tags.putchar(ch_in);
@@ -314,7 +365,7 @@ void Cxx::SourceFileLoader::filterInput(
 						tags.putchar('\n');
 						break;
 
-					default: state = State::SkipLine;
+					default: state = State::SkipLine; ch_prev = ch_in;
 				}
 				break;
 
@@ -329,7 +380,7 @@ void Cxx::SourceFileLoader::filterInput(
 						state = State::Newline;
 						tags.putchar('\n');
 						break;
-					default: state = State::SkipLine; break;
+					default: state = State::CommentLine; break;
 				}
 				break;
 
@@ -345,14 +396,31 @@ void Cxx::SourceFileLoader::filterInput(
 						state = State::Newline;
 						tags.putchar('\n');
 						break;
-					case 'R':
+					case '"':
 						raw_string_tag.clear();
 						raw_string_end_mark.clear();
-						state = State::RawStringBegin;
+						state = ch_prev == 'R' ? State::RawStringTag : State::StringLiteral;
+						break;
+					case '\'':
+						if(!isIdentifierChar(ch_prev)) { state = State::CharLiteral; }
+						break;
+					case '/':
+						if(ch_prev == '/') { state = State::CommentLine; }
+						break;
+					case '*':
+						if(ch_prev == '/') { state = State::CommentBlock; }
 						break;
-					case '/': state = State::CommentFirstSkipLine; break;
 					default: break;
 				}
+				ch_prev = state == State::SkipLine ? ch_in : 0;
+				break;
+
+			case State::CommentLine:
+				if(ch_in == '\n')
+				{
+					state = State::Newline;
+					tags.putchar('\n');
+				}
 				break;
 
 			case State::CommentBlock:
@@ -367,6 +435,7 @@ void Cxx::SourceFileLoader::filterInput(
 				switch(ch_in)
 				{
 					case '/': state = State::SkipLine; break;
+					case '*': break;
 					case '\n':
 						state = State::CommentBlock;
 						tags.putchar('\n');
@@ -375,27 +444,22 @@ void Cxx::SourceFileLoader::filterInput(
 				}
 				break;
 
-			case State::CommentFirstSkipLine:
-				switch(ch_in)
+			case State::StringLiteral:
+			case State::CharLiteral:
+				if(ch_in == '\n') { tags.putchar('\n'); }
+
+				if(escape) { escape = false; }
+				else if(ch_in == '\\')
 				{
-					case '*': state = State::CommentBlock; break;
-					case '\n':
-						state = State::Newline;
-						tags.putchar('\n');
-						break;
-					default: state = State::SkipLine;
+					escape = true;
 				}
-				break;
-
-			case State::RawStringBegin:
-				switch(ch_in)
+				else if(ch_in == '\n')
 				{
-					case '"': state = State::RawStringTag; break;
-					case '\n':
-						state = State::Newline;
-						tags.putchar('\n');
-						break;
-					default: state = State::SkipLine;
+					state = State::Newline;
+				}
+				else if(ch_in == (state == State::StringLiteral ? '"' : '\''))
+				{
+					state = State::SkipLine;
 				}
 				break;
 
@@ -429,9 +493,12 @@ void Cxx::SourceFileLoader::filterInput(
 
 					case '\n':
 						state = State::RawString;
+						raw_string_end_mark.clear();
 						tags.putchar('\n');
 						break;
 
+					case ')': raw_string_end_mark.clear(); break;
+
 					default: raw_string_end_mark += ch_in;
 				}
 				break;
-- 
2.43.0


From 5ca2effcfc6bf834b2a6f384c7e8bbc2f4a40a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:55 +0000
Subject: [PATCH 09/53] fix: reject a thread count with trailing junk or out of
 range

---
 core/sched/thread_count.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/sched/thread_count.cpp b/core/sched/thread_count.cpp
index 1b10edd..84ff8e4 100644
--- a/core/sched/thread_count.cpp
+++ b/core/sched/thread_count.cpp
@@ -4,8 +4,10 @@
 
 #include "./thread_count.hpp"
 
+#include <cerrno>
 #include <cstring>
 #include <cstdlib>
+#include <limits>
 #include <stdexcept>
 
 std::string Maike::ThreadCount::toString() const
@@ -20,8 +22,11 @@ Maike::ThreadCount::ThreadCount(char const* str)
 	if(strcmp(str, "auto") == 0) { m_val = -1; }
 	else
 	{
-		m_val = atoi(str);
-		if(m_val < 1)
+		char* end;
+		errno = 0;
+		auto const val = strtol(str, &end, 10);
+		if(*end != '\0' || errno != 0 || val < 1 || val > std::numeric_limits<int>::max())
 		{ throw std::runtime_error{"ThreadCount must be an integer greater than zero, or auto"}; }
+		m_val = static_cast<int>(val);
 	}
 }
-- 
2.43.0


From 2311adc9240e67d68eb0848dbc65358843d04fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:55 +0000
Subject: [PATCH 10/53] fix: begin each log entry on its own line, also after
 output without a final newline

---
 core/db/compilation_log.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/db/compilation_log.cpp b/core/db/compilation_log.cpp
index fd214e1..f76ed0b 100644
--- a/core/db/compilation_log.cpp
+++ b/core/db/compilation_log.cpp
@@ -38,6 +38,8 @@ namespace
 			output += ch_in;
 			newline = (ch_in == '\n');
 		});
+		// The next entry has to begin on its own line
+		if(std::size(data) != 0 && static_cast<char>(data.back()) != '\n') { output += '\n'; }
 	}
 }
 
-- 
2.43.0


From 589fa716e624396f7f1fe678432660cbdffbfd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:30 +0000
Subject: [PATCH 11/53] fix: normalize the source and target directories, so
 that they match normalized file names

---
 core/bin/maike.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/bin/maike.cpp b/core/bin/maike.cpp
index 1bac001..062119b 100644
--- a/core/bin/maike.cpp
+++ b/core/bin/maike.cpp
@@ -20,6 +20,14 @@
 
 #include <set>
 
+// Paths to source files and targets are normalized, and are expected to begin with the source or target
+// directory. Therefore, these have to be normalized as well.
+Maike::fs::path normalizeDir(Maike::fs::path const& dir)
+{
+	auto ret = dir.lexically_normal();
+	return ret.has_filename() || !ret.has_relative_path() ? ret : ret.parent_path();
+}
+
 Maike::Build::Info makeBuildInfo(Maike::CommandLine const& cmdline)
 {
 	Maike::Build::Info ret;
@@ -31,10 +39,10 @@ Maike::Build::Info makeBuildInfo(Maike::CommandLine const& cmdline)
 	{ ret.buildId(Maike::Build::Id{cmdline.option<Maike::CmdLineOption::BuildId>()}); }
 
 	if(cmdline.hasOption<Maike::CmdLineOption::SourceDir>())
-	{ ret.sourceDir(Maike::fs::path{cmdline.option<Maike::CmdLineOption::SourceDir>()}); }
+	{ ret.sourceDir(normalizeDir(cmdline.option<Maike::CmdLineOption::SourceDir>())); }
 
 	if(cmdline.hasOption<Maike::CmdLineOption::TargetDir>())
-	{ ret.targetDir(Maike::fs::path{cmdline.option<Maike::CmdLineOption::TargetDir>()}); }
+	{ ret.targetDir(normalizeDir(cmdline.option<Maike::CmdLineOption::TargetDir>())); }
 	else
 	{
 		if(ret.sourceDir().filename() != ".")
-- 
2.43.0


From 8ae54c0738b6a86f6025f3e1ea4c3f043cabf8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:48 +0000
Subject: [PATCH 12/53] fix: let a file with compiler settings but no recipe of
 its own depend on the recipe it is compiled with

---
 core/source_tree_loader/source_file_load_ctxt.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/source_tree_loader/source_file_load_ctxt.cpp b/core/source_tree_loader/source_file_load_ctxt.cpp
index e0006e6..642d862 100644
--- a/core/source_tree_loader/source_file_load_ctxt.cpp
+++ b/core/source_tree_loader/source_file_load_ctxt.cpp
@@ -222,9 +222,12 @@ Maike::SourceTreeLoader::loadSourceFile(SourceFileLoadContext const& load_ctxt,
 			std::copy(std::begin(use_deps), std::end(use_deps), std::back_inserter(builtin_deps));
 			std::copy(std::begin(ctu_deps), std::end(ctu_deps), std::back_inserter(child_target_use_deps));
 		}
-		if(compiler.recipe() != "") { builtin_deps.push_back(makeDependency(compiler)); }
 	}(load_ctxt, compiler ? (*compiler) : loader.compiler(), src_path);
 
+	// A compiler without recipe uses the recipe of the loader
+	auto const& recipe_provider = compiler && compiler->recipe() != "" ? *compiler : loader.compiler();
+	if(recipe_provider.recipe() != "") { builtin_deps.push_back(makeDependency(recipe_provider)); }
+
 	auto const rebuild_policy = [](auto const& tags) {
 		if(auto rebuild_policy = tags.template getIf<Db::RebuildPolicy>("rebuild"); rebuild_policy)
 		{ return *rebuild_policy; }
-- 
2.43.0


From b5dbf356755c6bef75b747135afb0414c044b1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:04 +0000
Subject: [PATCH 13/53] fix: report read errors and close a moved-to file once

InputFile returned the -1 of a failed read (as for a directory given as
configuration file) as a huge size, and after move assignment the same
descriptor was closed twice.
---
 core/io/input_file.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/io/input_file.hpp b/core/io/input_file.hpp
index 36880ce..3d06645 100644
--- a/core/io/input_file.hpp
+++ b/core/io/input_file.hpp
@@ -9,6 +9,10 @@
 #include <unistd.h>
 #include <fcntl.h>
 
+#include <cerrno>
+#include <cstring>
+#include <stdexcept>
+#include <string>
 #include <utility>
 
 namespace Maike::Io
@@ -41,12 +45,15 @@ namespace Maike::Io
 
 		size_t read(std::byte* buffer, size_t n)
 		{
-			return ::read(m_handle, buffer, n);
+			auto const ret = ::read(m_handle, buffer, n);
+			if(ret == -1) { throw std::runtime_error{std::string{"Read failed: "} + strerror(errno)}; }
+			return static_cast<size_t>(ret);
 		}
 
 		void reset()
 		{
 			if(m_handle != -1) { close(m_handle); }
+			m_handle = -1;
 		}
 
 		int get() const
-- 
2.43.0


From 4fd301e229f9340c916809e39b0616a2e366f608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:20 +0000
Subject: [PATCH 14/53] fix: print a recipe in the working directory so that
 the shell finds it

A recipe (or a file that is run itself) at the top of the source tree is
executed by its bare name. The printed command, run by a shell, searched
for that name in PATH instead.
---
 core/exec/command.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/exec/command.cpp b/core/exec/command.cpp
index 50f987f..bbfbd4b 100644
--- a/core/exec/command.cpp
+++ b/core/exec/command.cpp
@@ -27,7 +27,9 @@ namespace
 
 std::string Maike::Exec::toString(Command const& cmd)
 {
-	auto cmdline = shell_escape(cmd.executable.string());
+	// An executable without any directory is found in the working directory, but the shell would search
+	// for it in PATH
+	auto cmdline = shell_escape(makeShellExecPath(cmd.executable).string());
 	std::for_each(std::begin(cmd.args), std::end(cmd.args), [&cmdline](auto const& item) {
 		cmdline += " ";
 		cmdline += shell_escape(item);
-- 
2.43.0


From d279cdfe2f3db836526e56830b298c59aea178eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:59 +0000
Subject: [PATCH 15/53] fix: do not take the beginning of an option name for
 that option

---
 core/cmd_line_parser/command_line.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/cmd_line_parser/command_line.cpp b/core/cmd_line_parser/command_line.cpp
index 46a664e..b9561f5 100644
--- a/core/cmd_line_parser/command_line.cpp
+++ b/core/cmd_line_parser/command_line.cpp
@@ -71,12 +71,11 @@ uint64_t Maike::CmdLineParser::detail::collect_options(char const* const* argv_b
 		auto const str_end = str + l;
 		auto splitpoint = std::find(str, str_end, '=');
 
-		auto x = binaryFind(optitems_begin,
-		                    optitems_end,
-		                    str,
-		                    CompareOptItemsByName{static_cast<size_t>(splitpoint - str)});
+		auto const name_length = static_cast<size_t>(splitpoint - str);
+		auto x = binaryFind(optitems_begin, optitems_end, str, CompareOptItemsByName{name_length});
 
-		if(x == optitems_end)
+		// The comparison stops at the end of the name given. Do not accept the beginning of an option name.
+		if(x == optitems_end || strlen(x->name) != name_length)
 		{ throw std::runtime_error{std::string{"Invalid command line option "} + str}; }
 
 		set_vals |= x->converter(tuple, splitpoint == str_end ? "" : splitpoint + 1);
-- 
2.43.0


From 4996a1e06954fdfeae1778dc4a235a9f1c91ae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:59 +0000
Subject: [PATCH 16/53] fix: reject a build id that does not have 64 digits

---
 core/build/id.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/build/id.cpp b/core/build/id.cpp
index 4970618..593c356 100644
--- a/core/build/id.cpp
+++ b/core/build/id.cpp
@@ -35,7 +35,10 @@ Maike::Build::Id::Id(char const* cstr): m_bytes{}
 	while(true)
 	{
 		auto ch_in = *cstr;
-		if(ch_in == '\0' || k == 64) { return; }
+		if((ch_in == '\0') != (k == 64))
+		{ throw std::runtime_error{"Invalid BuildId: expected 64 hexadecimal digits"}; }
+
+		if(ch_in == '\0') { return; }
 
 		auto nibble = to_nibble(ch_in);
 
-- 
2.43.0


From 7b2d20f2f331e7576cf1b590343be39396cbc89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:59 +0000
Subject: [PATCH 17/53] fix: reject a start time that the system clock can't
 represent

---
 core/utils/system_time_stamp.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/utils/system_time_stamp.cpp b/core/utils/system_time_stamp.cpp
index 449f6d9..1b4b194 100644
--- a/core/utils/system_time_stamp.cpp
+++ b/core/utils/system_time_stamp.cpp
@@ -16,7 +16,10 @@ Maike::SystemTimeStamp::SystemTimeStamp(char const* str)
 	auto l = strlen(str);
 	errno = 0;
 	auto tmp = strtoll(str, &end, 0);
-	if(end != str + l || errno != 0)
+	using Seconds = std::chrono::seconds;
+	using Clock = std::chrono::system_clock;
+	constexpr auto max = std::chrono::duration_cast<Seconds>(Clock::duration::max()).count();
+	if(l == 0 || end != str + l || errno != 0 || tmp > max || tmp < -max)
 	{ throw std::runtime_error{std::string{"Invalid timestamp "} + str}; }
 	m_val = std::chrono::system_clock::from_time_t(tmp);
 }
-- 
2.43.0


From 8a4b9a701124d94d0a9accaaddcc6c2d3c1a986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:24 +0000
Subject: [PATCH 18/53] fix: do not end a queue when an empty piece is written
 to it

---
 core/io/fifo.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/io/fifo.hpp b/core/io/fifo.hpp
index ea99a7f..6a1e1a8 100644
--- a/core/io/fifo.hpp
+++ b/core/io/fifo.hpp
@@ -20,6 +20,9 @@ namespace Maike::Io
 
 		void write(ElemType const* buffer, size_t size)
 		{
+			// An empty element marks the end
+			if(size == 0) { return; }
+
 			auto tmp = std::make_unique<ElemType[]>(size);
 			std::copy(buffer, buffer + size, tmp.get());
 			std::lock_guard guard{m_mtx};
@@ -29,7 +32,9 @@ namespace Maike::Io
 
 		void stop()
 		{
-			write(nullptr, 0);
+			std::lock_guard guard{m_mtx};
+			m_elems.push_back({0, nullptr});
+			m_cv.notify_one();
 		}
 
 		size_t read(ElemType* buffer, size_t size)
-- 
2.43.0


From 9bce850d088ee59a4f64fc6e4df193761ae61456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:25 +0000
Subject: [PATCH 19/53] fix: wake up all that wait for a counter or a task

---
 core/sched/signaling_counter.hpp | 4 ++--
 core/sched/thread_pool.hpp       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/sched/signaling_counter.hpp b/core/sched/signaling_counter.hpp
index 8b5a52d..29df654 100644
--- a/core/sched/signaling_counter.hpp
+++ b/core/sched/signaling_counter.hpp
@@ -29,7 +29,7 @@ namespace Maike::Sched
 		{
 			std::lock_guard lock{m_mtx};
 			++m_value;
-			m_cv.notify_one();
+			m_cv.notify_all();
 			return *this;
 		}
 
@@ -37,7 +37,7 @@ namespace Maike::Sched
 		{
 			std::lock_guard lock{m_mtx};
 			--m_value;
-			m_cv.notify_one();
+			m_cv.notify_all();
 			return *this;
 		}
 
diff --git a/core/sched/thread_pool.hpp b/core/sched/thread_pool.hpp
index de8731a..a5ebb3d 100644
--- a/core/sched/thread_pool.hpp
+++ b/core/sched/thread_pool.hpp
@@ -47,14 +47,14 @@ namespace Maike::Sched
 		{
 			std::lock_guard lock{m_mtx};
 			m_result = std::move(obj);
-			m_cv.notify_one();
+			m_cv.notify_all();
 		}
 
 		void set(std::exception_ptr except)
 		{
 			std::lock_guard lock{m_mtx};
 			m_except = except;
-			m_cv.notify_one();
+			m_cv.notify_all();
 		}
 
 		~AsyncTaskResult()
-- 
2.43.0


From fd21ae63bfc7db3d25ec1b71c358e33968adad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:48 +0000
Subject: [PATCH 20/53] fix: ask the recipe that compiles a file for its tags

A compiler entry without a recipe means the recipe of the loader, but
the file itself was run to get its tags.
---
 core/source_tree_loader/source_file_load_ctxt.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/source_tree_loader/source_file_load_ctxt.cpp b/core/source_tree_loader/source_file_load_ctxt.cpp
index 642d862..19d585e 100644
--- a/core/source_tree_loader/source_file_load_ctxt.cpp
+++ b/core/source_tree_loader/source_file_load_ctxt.cpp
@@ -210,11 +210,13 @@ Maike::SourceTreeLoader::loadSourceFile(SourceFileLoadContext const& load_ctxt,
 
 	[&targets, &builtin_deps, &child_target_use_deps](
 	   SourceTreeLoader::SourceFileLoadContext const& load_ctxt,
-	   Db::Compiler const& compiler,
+	   Db::Compiler const* compiler,
+	   Db::Compiler const& default_compiler,
 	   fs::path const& src_file) {
-		if(compiler.useGetTags())
+		if((compiler ? *compiler : default_compiler).useGetTags())
 		{
-			auto tags = getTags(compiler, src_file);
+			// Ask the recipe that is going to compile the file
+			auto tags = getTags(compiler ? (default_compiler | *compiler) : default_compiler, src_file);
 			auto script_targets = getTargets(load_ctxt, tags);
 			auto use_deps = getUseDeps(load_ctxt, tags);
 			auto ctu_deps = getChildTargetUseDeps(load_ctxt, tags);
@@ -222,7 +224,7 @@ Maike::SourceTreeLoader::loadSourceFile(SourceFileLoadContext const& load_ctxt,
 			std::copy(std::begin(use_deps), std::end(use_deps), std::back_inserter(builtin_deps));
 			std::copy(std::begin(ctu_deps), std::end(ctu_deps), std::back_inserter(child_target_use_deps));
 		}
-	}(load_ctxt, compiler ? (*compiler) : loader.compiler(), src_path);
+	}(load_ctxt, compiler ? &(*compiler) : nullptr, loader.compiler(), src_path);
 
 	// A compiler without recipe uses the recipe of the loader
 	auto const& recipe_provider = compiler && compiler->recipe() != "" ? *compiler : loader.compiler();
-- 
2.43.0


From 18a88b0b4b7332ad371c656404633e66a60a1c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:48 +0000
Subject: [PATCH 21/53] fix: recognise the recipe for directories when the
 source directory is .

The recipe is a normalised path, so that it was made to depend on its
directory, which depends on the recipe.
---
 core/source_tree_loader/source_file_loader_delegator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/source_tree_loader/source_file_loader_delegator.cpp b/core/source_tree_loader/source_file_loader_delegator.cpp
index 755d5e2..c1732d5 100644
--- a/core/source_tree_loader/source_file_loader_delegator.cpp
+++ b/core/source_tree_loader/source_file_loader_delegator.cpp
@@ -12,7 +12,7 @@ Maike::Db::SourceFileInfo Maike::SourceTreeLoader::SourceFileLoaderDelegator::lo
 	SourceFileLoadContext load_ctxt{src_path, src_dir, target_dir};
 
 	std::vector<Db::Dependency> deps;
-	if(src_dir != src_path && src_path != m_dir_compiler.get().recipe())
+	if(src_dir != src_path && src_path.lexically_normal() != m_dir_compiler.get().recipe())
 	{
 		deps.push_back(Db::Dependency{
 		   load_ctxt.sourceFileDir(), Db::SourceFileOrigin::Project, std::vector<Db::Property>{}});
-- 
2.43.0


From 72bd24219324bd2333a0a7a795e1c858e475e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:05 +0000
Subject: [PATCH 22/53] fix: pass compiler flags as they are

Equal items were dropped, which separates flags from their arguments
(-D A -D B).
---
 recipes/cxx_compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 0d3f384..2ec5c7a 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -29,7 +29,6 @@ def format_iquote(src_dir, target_dir, dirs):
 
 def collect_cflags(src_dir, target_dir, src_file_dir, compiler_flags, dependencies):
 	tmp = []
-	tmp.extend(compiler_flags['cflags'])
 	iquote = []
 	if src_file_dir != '':
 		iquote.append(os.path.relpath(src_file_dir, src_dir))
@@ -41,7 +40,8 @@ def collect_cflags(src_dir, target_dir, src_file_dir, compiler_flags, dependenci
 		elif 'rel' in item and item['rel'] == 'include':
 			tmp.append('-include%s'%item['ref'])
 
-	return list(dict.fromkeys(tmp))
+	# A flag and its argument may be separate items, so that the flags given must be left as they are
+	return compiler_flags['cflags'] + list(dict.fromkeys(tmp))
 
 def get_actions(compiler_cfg):
 	ret = set()
-- 
2.43.0


From 6945fe83ec48171e59f39c371c02f0e18dcbf09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:10 +0000
Subject: [PATCH 23/53] fix: accept a newest language revision without an
 oldest one

---
 recipes/cxx_compiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 2ec5c7a..892143c 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -147,6 +147,7 @@ def select_cpp_rev(compiler, rev):
 			return ''
 	else:
 		if 'max' in rev:
+			max_num = get_numeric_rev(rev['max'])
 			default_rev = get_cpp_revision_tag(compiler)
 			if default_rev > max_num:
 				return rev['max']
-- 
2.43.0


From 966722ddf3260baecb04281a5db67e4c77729fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:33 +0000
Subject: [PATCH 24/53] fix: link object files before archives

The members of an archive are dependencies too. When one of them was
taken from the archive before the object file itself came, the linker
found everything in it twice.
---
 recipes/cxx_linker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recipes/cxx_linker.py b/recipes/cxx_linker.py
index 0fbfee7..662019d 100755
--- a/recipes/cxx_linker.py
+++ b/recipes/cxx_linker.py
@@ -35,7 +35,9 @@ def filter_deps(dep_items):
 			ret.append(item)
 			bookkeeping.add(item)
 	ret.reverse()
-	return ret
+	# An archive consists of objects, some of which may be listed too. These have to come first.
+	archives = [item for item in ret if item.startswith('-') or item.endswith('.a')]
+	return [item for item in ret if not item in archives] + archives
 
 
 def compile(build_args):
-- 
2.43.0


From bf40c7cca89e38c11e9f5eca1ae3f94d47961d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:48 +0000
Subject: [PATCH 25/53] fix: make archives from scratch

ar keeps members of an existing archive that are not in the list, so that
what is no longer part of a library stayed in it.
---
 recipes/make_lib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recipes/make_lib.py b/recipes/make_lib.py
index 9b3a5a1..10b99d4 100755
--- a/recipes/make_lib.py
+++ b/recipes/make_lib.py
@@ -33,6 +33,9 @@ def compile(build_args):
 	args = [compiler, 'rcs']
 	args.append(build_args['targets'][0])
 	args.extend(filter_deps(collect_deps(build_args['dependencies'])))
+	# Do not keep members that do not belong to the library any longer
+	if os.path.exists(build_args['targets'][0]):
+		os.remove(build_args['targets'][0])
 	result = subprocess.run(args)
 	return result.returncode
 
-- 
2.43.0


From 13bb2082b5e73f9246c4f4ac2516ed32159173f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:41 +0000
Subject: [PATCH 26/53] fix: find generated headers below an absolute target
 directory

---
 recipes/cxx_compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 892143c..7fc9f88 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -24,7 +24,7 @@ def format_iquote(src_dir, target_dir, dirs):
 		else:
 			ret.append('-iquote%s/%s'%(src_dir, item))
 
-		ret.append('-iquote%s/%s/%s'%(os.getcwd(), target_dir, item))
+		ret.append('-iquote%s'%os.path.join(os.getcwd(), target_dir, item))
 	return ret
 
 def collect_cflags(src_dir, target_dir, src_file_dir, compiler_flags, dependencies):
-- 
2.43.0


From 9249335dc2f52a9f9d5ae70561e00cfbdc0dc2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:41 +0000
Subject: [PATCH 27/53] fix: run a test again that has failed

---
 recipes/cxx_compiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 7fc9f88..8150dae 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -94,6 +94,10 @@ def compile(build_args):
 		print('%s: Running %s'%(build_args['source_file'], build_args['targets'][0]))
 		sys.stdout.flush()
 		result = subprocess.run([build_args['targets'][0]])
+		if result.returncode != 0:
+			# Run it again the next time
+			for target in build_args['targets']:
+				os.utime(target, (0, 0))
 
 	if 'sanitize' in actions and result.returncode == 0:
 		tidycmd = ['clang-tidy', build_args['source_file'], '--', '-Wno-unknown-warning-option']
-- 
2.43.0


From 2e9a47eb721ce1dac19d2da25df137ffd03d50e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:33 +0000
Subject: [PATCH 28/53] fix: fail when the command of the generic recipe fails

---
 recipes/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/generic.py b/recipes/generic.py
index c654226..179a02c 100755
--- a/recipes/generic.py
+++ b/recipes/generic.py
@@ -42,7 +42,7 @@ if __name__ == '__main__':
 		if sys.argv[1] == 'configure':
 			exit(0)
 		if sys.argv[1] == 'compile':
-			compile(args);
+			exit(compile(args))
 	except Exception as e:
 		print(e, file=sys.stderr)
 		exit(-1)
\ No newline at end of file
-- 
2.43.0


From 2aad6e5d3585f57d9ca5e5230e6031e6106ebf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:33 +0000
Subject: [PATCH 29/53] fix: let the generic recipe put targets at the file's
 place, whatever the source directory

---
 recipes/generic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recipes/generic.py b/recipes/generic.py
index 179a02c..6920d75 100755
--- a/recipes/generic.py
+++ b/recipes/generic.py
@@ -1,5 +1,6 @@
 #!/usr/bin/env python3
 
+import os
 import sys
 import json
 import subprocess
@@ -12,7 +13,7 @@ def get_tags(args, scriptname):
 
 	ret['target'] = dict()
 	compiler_cfg = args['compiler_cfg']
-	ret['target']['name']=args['source_file'] + '.' +  compiler_cfg['target_filename_ext']
+	ret['target']['name'] = os.path.basename(args['source_file']) + '.' +  compiler_cfg['target_filename_ext']
 
 	command = compiler_cfg['compilation_cmd']
 	ret['dependencies'] = [{'ref': command['executable'], 'origin': command['exec_origin']}]
-- 
2.43.0


From b4f150537685f09bf1eab411fb5b404e57d71446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:33 +0000
Subject: [PATCH 30/53] fix: fail when pandoc fails

---
 recipes/md2htmlpart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recipes/md2htmlpart.py b/recipes/md2htmlpart.py
index ca4f51a..7ba1168 100755
--- a/recipes/md2htmlpart.py
+++ b/recipes/md2htmlpart.py
@@ -16,6 +16,8 @@ def find_elements(node, element, result):
 
 def convert(src_file, target):
 	pandoc_res = subprocess.run(['pandoc', '-f', 'markdown', '-t', 'html', '--section-divs', src_file], text=True, stdout=subprocess.PIPE)
+	if pandoc_res.returncode != 0:
+		return pandoc_res.returncode
 
 	doc = '<content>' + pandoc_res.stdout + '</content>'
 
-- 
2.43.0


From 30d4e3885039e9100d8cca7b311e2eede1cc523f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:33 +0000
Subject: [PATCH 31/53] fix: find the directory of a document that lies in the
 working directory

---
 recipes/doc2html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/doc2html.py b/recipes/doc2html.py
index d3c37b8..3592510 100755
--- a/recipes/doc2html.py
+++ b/recipes/doc2html.py
@@ -12,7 +12,7 @@ def compile(args):
 	target_dir = args['build_info']['target_dir']
 	targets = args['targets']
 	source_file = args['source_file']
-	current_dir =  target_dir + '/' + os.path.relpath(os.path.dirname(source_file), args['build_info']['source_dir'])
+	current_dir =  target_dir + '/' + os.path.relpath(os.path.dirname(source_file) or '.', args['build_info']['source_dir'])
 	with open(os.path.dirname(__file__) + '/doc2html.xsl') as f:
 		cmd = ['xsltproc', '-o', targets[0], '--nonet', '--stringparam', 'current_dir', current_dir, '-', source_file]
 		proc = subprocess.Popen(cmd, stdin=f, stderr=subprocess.PIPE)
-- 
2.43.0


From 2862c185ae48628a4cbc629b18a0a6981afebeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:15 +0000
Subject: [PATCH 32/53] fix: reject include names that are too long, instead of
 overflowing the stack

---
 core/source_file_info_loaders/cxx/source_file_loader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 0653ac0..09f4fe5 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -7,10 +7,17 @@
 #include "core/io/input_buffer.hpp"
 #include "core/io/output_buffer.hpp"
 
+#include <climits>
+#include <stdexcept>
+
 namespace
 {
 	auto get_origin(std::vector<std::regex> const& gen_includes , std::filesystem::path const& include_path)
 	{
+		// NOTE: No such file can exist, and matching takes stack space in proportion to the length
+		if(include_path.native().size() >= PATH_MAX)
+		{ throw std::runtime_error{"The name of an included file is too long"}; }
+
 		if(std::any_of(std::begin(gen_includes), std::end(gen_includes), [str = include_path.c_str()](auto const& item) {
 			return regex_search(str, item);
 		}))
-- 
2.43.0


From 05b439c6ff0b1a13bc5d325c167f19c69a832a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:19 +0000
Subject: [PATCH 33/53] fix: write the result of a query to the path given with
 the option

The help promises that --help, --version, --about, --configdump, --list-targets
and --print-dep-graph write to the path given, but it was ignored.
---
 core/bin/maike.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/core/bin/maike.cpp b/core/bin/maike.cpp
index 062119b..2720dbc 100644
--- a/core/bin/maike.cpp
+++ b/core/bin/maike.cpp
@@ -68,6 +68,20 @@ Maike::Db::CompilationLog::LogLevel getLogLevel(Maike::CommandLine const& cmdlin
 	          Maike::Db::CompilationLog::LogLevel::SourceFileInfo;
 }
 
+// The result of a query goes to the path that was given together with it, if any, instead of stdout
+void selectOutput(Maike::fs::path const& path)
+{
+	if(path.empty()) { return; }
+
+	if(freopen(path.c_str(), "w", stdout) == nullptr)
+	{
+		std::string msg{"Failed to open "};
+		msg += path;
+		msg += " for writing";
+		throw std::runtime_error{std::move(msg)};
+	}
+}
+
 void printTargets(Maike::Db::TargetList const& targets,
                   Maike::fs::path const& target_dir,
                   Maike::fs::path const&)
@@ -296,18 +310,21 @@ int main(int argc, char** argv)
 		Maike::CommandLine const cmdline{argc - 1, argv + 1};
 		if(cmdline.hasOption<Maike::CmdLineOption::Help>())
 		{
+			selectOutput(cmdline.option<Maike::CmdLineOption::Help>());
 			printHelp(cmdline);
 			return 0;
 		}
 
 		if(cmdline.hasOption<Maike::CmdLineOption::Version>())
 		{
+			selectOutput(cmdline.option<Maike::CmdLineOption::Version>());
 			printVersion(cmdline.option<Maike::CmdLineOption::Version>());
 			return 0;
 		}
 
 		if(cmdline.hasOption<Maike::CmdLineOption::About>())
 		{
+			selectOutput(cmdline.option<Maike::CmdLineOption::About>());
 			printAbout(cmdline.option<Maike::CmdLineOption::About>());
 			return 0;
 		}
@@ -328,6 +345,7 @@ int main(int argc, char** argv)
 
 		if(cmdline.hasOption<Maike::CmdLineOption::ConfigDump>())
 		{
+			selectOutput(cmdline.option<Maike::CmdLineOption::ConfigDump>());
 			dumpConfig(cfg, cmdline.option<Maike::CmdLineOption::ConfigDump>());
 			return 0;
 		}
@@ -372,14 +390,16 @@ int main(int argc, char** argv)
 
 		if(cmdline.hasOption<Maike::CmdLineOption::ListTargets>())
 		{
+			selectOutput(cmdline.option<Maike::CmdLineOption::ListTargets>());
 			printTargets(src_tree.targets(),
 			             build_info.targetDir(),
-			             cmdline.option<Maike::CmdLineOption::PrintDepGraph>());
+			             cmdline.option<Maike::CmdLineOption::ListTargets>());
 			return 0;
 		}
 
 		if(cmdline.hasOption<Maike::CmdLineOption::PrintDepGraph>())
 		{
+			selectOutput(cmdline.option<Maike::CmdLineOption::PrintDepGraph>());
 			printDepGraph(src_tree.dependencyGraph(), cmdline.option<Maike::CmdLineOption::PrintDepGraph>());
 			return 0;
 		}
-- 
2.43.0


From 3a9b78432adc97fed9188465d8d2b38b146a2696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:10 +0000
Subject: [PATCH 34/53] fix: quote names in the dependency graph printed

A file name with a double quote gave a file that dot(1) can't read.
---
 core/bin/maike.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/bin/maike.cpp b/core/bin/maike.cpp
index 2720dbc..ea34179 100644
--- a/core/bin/maike.cpp
+++ b/core/bin/maike.cpp
@@ -91,6 +91,18 @@ void printTargets(Maike::Db::TargetList const& targets,
 	});
 }
 
+std::string dotName(Maike::fs::path const& path)
+{
+	std::string ret{"\""};
+	for(auto ch : path.string())
+	{
+		if(ch == '"' || ch == '\\') { ret += '\\'; }
+		ret += ch;
+	}
+	ret += '"';
+	return ret;
+}
+
 void printDepGraph(Maike::Db::DependencyGraph const& source_files, Maike::fs::path const&)
 {
 	std::set<std::pair<Maike::fs::path, Maike::fs::path>> output;
@@ -110,7 +122,7 @@ void printDepGraph(Maike::Db::DependencyGraph const& source_files, Maike::fs::pa
 	   source_files);
 	puts("digraph \"G\" {\nrankdir=LR\n");
 	std::for_each(std::begin(output), std::end(output), [](auto const& item) {
-		printf("\"%s\" -> \"%s\"\n", item.first.c_str(), item.second.c_str());
+		printf("%s -> %s\n", dotName(item.first).c_str(), dotName(item.second).c_str());
 	});
 	puts("}");
 }
-- 
2.43.0


From f34b8891513cb117e84fc292fd5077cad7423921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:16 +0000
Subject: [PATCH 35/53] fix: --print-dep-graph-inv and --list-external-deps
 print what they promise

The options were accepted, but started a build.
---
 core/bin/maike.cpp | 49 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/core/bin/maike.cpp b/core/bin/maike.cpp
index ea34179..d31c9d8 100644
--- a/core/bin/maike.cpp
+++ b/core/bin/maike.cpp
@@ -103,19 +103,25 @@ std::string dotName(Maike::fs::path const& path)
 	return ret;
 }
 
-void printDepGraph(Maike::Db::DependencyGraph const& source_files, Maike::fs::path const&)
+enum class GraphDirection : int
+{
+	Forward,
+	Backward
+};
+
+void printDepGraph(Maike::Db::DependencyGraph const& source_files, GraphDirection direction)
 {
 	std::set<std::pair<Maike::fs::path, Maike::fs::path>> output;
 	visitNodes(
-	   [&output](auto const& item) {
+	   [&output, direction](auto const& item) {
 		   visitEdges(
-		      [&output, &item](auto const& edge) {
-#if 0
-			      if(item.path().parent_path() != edge.name().parent_path())
-			      { output.insert(std::pair{item.path().parent_path(), edge.name().parent_path()}); }
-#else
-			      output.insert(std::pair{item.path(), edge.name()});
-#endif
+		      [&output, &item, direction](auto const& edge) {
+			      if(direction == GraphDirection::Forward)
+			      { output.insert(std::pair{item.path(), edge.name()}); }
+			      else
+			      {
+				      output.insert(std::pair{edge.name(), item.path()});
+			      }
 		      },
 		      item);
 	   },
@@ -127,6 +133,15 @@ void printDepGraph(Maike::Db::DependencyGraph const& source_files, Maike::fs::pa
 	puts("}");
 }
 
+void printExternalDeps(Maike::Db::DependencyGraph const& source_files)
+{
+	visitNodes(
+	   [](auto const& item) {
+		   if(isExternal(item.sourceFileInfo().origin())) { printf("%s\n", item.path().c_str()); }
+	   },
+	   source_files);
+}
+
 void printHelp(Maike::CommandLine const& cmdline)
 {
 	printf(
@@ -412,7 +427,21 @@ int main(int argc, char** argv)
 		if(cmdline.hasOption<Maike::CmdLineOption::PrintDepGraph>())
 		{
 			selectOutput(cmdline.option<Maike::CmdLineOption::PrintDepGraph>());
-			printDepGraph(src_tree.dependencyGraph(), cmdline.option<Maike::CmdLineOption::PrintDepGraph>());
+			printDepGraph(src_tree.dependencyGraph(), GraphDirection::Forward);
+			return 0;
+		}
+
+		if(cmdline.hasOption<Maike::CmdLineOption::PrintDepGraphInv>())
+		{
+			selectOutput(cmdline.option<Maike::CmdLineOption::PrintDepGraphInv>());
+			printDepGraph(src_tree.dependencyGraph(), GraphDirection::Backward);
+			return 0;
+		}
+
+		if(cmdline.hasOption<Maike::CmdLineOption::ListExternalDeps>())
+		{
+			selectOutput(cmdline.option<Maike::CmdLineOption::ListExternalDeps>());
+			printExternalDeps(src_tree.dependencyGraph());
 			return 0;
 		}
 
-- 
2.43.0


From 1749b3f09c45813fe2032b4fd030c902397a534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:37 +0000
Subject: [PATCH 36/53] fix: try the default compiler before its alternatives

The compiler given by CXX was not tried at all if it contained a path, and
otherwise it depended on the order of the directory entries.
---
 recipes/cxx_compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 8150dae..24ccc13 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -162,11 +162,11 @@ def get_compiler_alternatives(compiler, always_use_default):
 	if always_use_default:
 		return [compiler]
 
-	ret = []
+	ret = [compiler]
 	for path in os.environ['PATH'].split(':'):
 		try:
 			for filename in os.listdir(path):
-				if filename.startswith(compiler):
+				if filename.startswith(compiler) and filename != compiler:
 					parts = filename.split('-')
 					if len(parts) == 1 or len(parts) == 2:
 						ret.append(filename)
-- 
2.43.0


From 58ddd2136fb0728531012f0ba8a9a913b109b602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:37 +0000
Subject: [PATCH 37/53] fix: skip compilers that can't be run when looking for
 one that supports a revision

---
 recipes/cxx_compiler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 24ccc13..c6d28d7 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -118,7 +118,10 @@ def get_cpp_revision_tag(compiler, std = None):
 		args = [compiler, '-x', 'c++', '-E', '-dM', '/dev/null']
 	else:
 		args = [compiler, '-x', 'c++', '-std=%s'%std, '-E', '-dM', '/dev/null']
-	result = subprocess.run(args, stdin = subprocess.DEVNULL, stdout=subprocess.PIPE, text=True)
+	try:
+		result = subprocess.run(args, stdin = subprocess.DEVNULL, stdout=subprocess.PIPE, text=True)
+	except OSError:
+		return None
 	if result.returncode != 0:
 		return None
 
@@ -177,6 +180,8 @@ def get_compiler_alternatives(compiler, always_use_default):
 def select_compiler_and_stdrev(compilers, stdrev):
 	candidates = []
 	for compiler in compilers:
+		if get_cpp_revision_tag(compiler) == None:
+			continue
 		rev = select_cpp_rev(compiler, stdrev)
 		if rev == '':
 			return (compiler, rev, 0)
-- 
2.43.0


From 57b9b9e72c30b72e8e7ed4c33e513fcc30422b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:37 +0000
Subject: [PATCH 38/53] fix: prefer the compiler with the newest of the
 experimental revisions

---
 recipes/cxx_compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index c6d28d7..e10f028 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -197,7 +197,7 @@ def select_compiler_and_stdrev(compilers, stdrev):
 		raise Exception('The requested revision %s appears to be unsupported on this sytem. Tried with %s' \
 			%(stdrev, ', ' .join(compilers)))
 
-	candidates.sort(key = lambda x: x[2])
+	candidates.sort(key = lambda x: x[2], reverse = True)
 	return candidates[0]
 
 def configure(cfg):
-- 
2.43.0


From b365084e7b2b932f5586da39ce8108dfdb38ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:04 +0000
Subject: [PATCH 39/53] fix: respect quoting in what pkg-config prints

---
 recipes/pkg_config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/recipes/pkg_config.py b/recipes/pkg_config.py
index 46eda36..64a6414 100755
--- a/recipes/pkg_config.py
+++ b/recipes/pkg_config.py
@@ -1,5 +1,6 @@
 #!/usr/bin/env python3
 
+import shlex
 import subprocess
 import sys
 
@@ -13,7 +14,7 @@ def get_cflags(libname):
 	ret_str = result.stdout.strip()
 	if len(ret_str) == 0:
 		return []
-	return ret_str.split(' ')
+	return shlex.split(ret_str)
 
 def get_libs(libname):
 	result = subprocess.run(['pkg-config', '--libs-only-l', libname], stdout=subprocess.PIPE, text=True)
@@ -22,7 +23,7 @@ def get_libs(libname):
 	ret_str = result.stdout.strip()
 	if len(ret_str) == 0:
 		return []
-	ret = ret_str.split()
+	ret = shlex.split(ret_str)
 	ret.reverse()
 	return ret
 
@@ -33,7 +34,7 @@ def get_libdirs(libname):
 	ret_str = result.stdout.strip()
 	if len(ret_str) == 0:
 		return []
-	ret = ret_str.split()
+	ret = shlex.split(ret_str)
 	ret.reverse()
 	return ret
 
-- 
2.43.0


From 5ced1eaf7deea6ceb4db31b04ddaf2a04420a944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:04 +0000
Subject: [PATCH 40/53] fix: pass compiler flags from pkg-config as they are

---
 recipes/cxx_compiler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index e10f028..98d9910 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -29,6 +29,7 @@ def format_iquote(src_dir, target_dir, dirs):
 
 def collect_cflags(src_dir, target_dir, src_file_dir, compiler_flags, dependencies):
 	tmp = []
+	pkg_cflags = []
 	iquote = []
 	if src_file_dir != '':
 		iquote.append(os.path.relpath(src_file_dir, src_dir))
@@ -36,12 +37,12 @@ def collect_cflags(src_dir, target_dir, src_file_dir, compiler_flags, dependenci
 	tmp.extend(format_iquote(src_dir, target_dir, iquote))
 	for item in dependencies:
 		if item['origin'] == 'pkg-config':
-			tmp.extend(pkg_config.get_cflags(item['ref']))
+			pkg_cflags.extend(pkg_config.get_cflags(item['ref']))
 		elif 'rel' in item and item['rel'] == 'include':
 			tmp.append('-include%s'%item['ref'])
 
 	# A flag and its argument may be separate items, so that the flags given must be left as they are
-	return compiler_flags['cflags'] + list(dict.fromkeys(tmp))
+	return compiler_flags['cflags'] + list(dict.fromkeys(tmp)) + pkg_cflags
 
 def get_actions(compiler_cfg):
 	ret = set()
-- 
2.43.0


From 08adfca1cb1309e8e1bb527952365c7b6cda90fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:31 +0000
Subject: [PATCH 41/53] fix: do not drop a library that is needed again by one
 listed later

---
 recipes/cxx_linker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recipes/cxx_linker.py b/recipes/cxx_linker.py
index 662019d..2f067cd 100755
--- a/recipes/cxx_linker.py
+++ b/recipes/cxx_linker.py
@@ -31,7 +31,8 @@ def filter_deps(dep_items):
 	bookkeeping = set()
 	ret = []
 	for item in dep_items:
-		if not item in bookkeeping:
+		# A library may be needed again by one that is listed later
+		if item.startswith('-') or not item in bookkeeping:
 			ret.append(item)
 			bookkeeping.add(item)
 	ret.reverse()
-- 
2.43.0


From 39bbe2efb75fe7e184b41a8eca85e4b13dadf537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 42/53] fix: take the version log from the repository of the
 source directory

---
 recipes/vcslog.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recipes/vcslog.py b/recipes/vcslog.py
index 9063b33..d40b923 100755
--- a/recipes/vcslog.py
+++ b/recipes/vcslog.py
@@ -18,10 +18,10 @@ def collect_commits(repo):
 
 	return ret
 
-def get(target, cache):
+def get(src_dir, cache):
 	try:
 		ret = dict()
-		repo = pygit2.Repository('.git')
+		repo = pygit2.Repository(os.path.join(src_dir, '.git'))
 		ret['commit'] = repo.revparse_single('HEAD').hex
 		ret['tag'] = repo.describe(show_commit_oid_as_fallback=True, dirty_suffix='-dirty')
 		ret['changelog'] = collect_commits(repo)
@@ -43,7 +43,7 @@ if __name__ == '__main__':
 			target = data['targets'][0]
 			src_dir = data['build_info']['source_dir']
 			cache = src_dir + '/__buildcache/vcslog.json'
-			data = get(target, cache)
+			data = get(src_dir, cache)
 			with open(target, 'w') as f:
 				json.dump(data, f)
 			mkdir(src_dir + '/__buildcache')
-- 
2.43.0


From 14adc7310532e43ebe505b1bb137decb337fb36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:51 +0000
Subject: [PATCH 43/53] fix: replace the cached version log at once

---
 recipes/vcslog.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recipes/vcslog.py b/recipes/vcslog.py
index d40b923..76aa648 100755
--- a/recipes/vcslog.py
+++ b/recipes/vcslog.py
@@ -47,8 +47,11 @@ if __name__ == '__main__':
 			with open(target, 'w') as f:
 				json.dump(data, f)
 			mkdir(src_dir + '/__buildcache')
-			with open(cache, 'w') as f:
+			# Another log of the same project may be about to read the cache
+			tmpfile = '%s.%d'%(cache, os.getpid())
+			with open(tmpfile, 'w') as f:
 				json.dump(data, f)
+			os.replace(tmpfile, cache)
 	except Exception as e:
 		print(e, file=sys.stderr)
 		exit(-1)
\ No newline at end of file
-- 
2.43.0


From 9e616b5d8af87f2a6f72513b6d0ab201ef8c304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:15 +0000
Subject: [PATCH 44/53] fix: fail if pandoc can't make the manual page

---
 doc/manpage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doc/manpage.py b/doc/manpage.py
index f5f39e6..e176c8d 100755
--- a/doc/manpage.py
+++ b/doc/manpage.py
@@ -88,7 +88,7 @@ def compile(args):
 	content['date'] = datetime.datetime.fromtimestamp(timestamp, datetime.timezone.utc).strftime('%Y-%m-%d %H:%M:%S UTC')
 	md_output = document.substitute(content)
 	pandoc_res = subprocess.run(['pandoc', '-f', 'markdown', '-s', '-t', 'man', '-o', targets[0]], input=md_output, text=True)
-	return 0
+	return pandoc_res.returncode
 
 if __name__ == '__main__':
 	if sys.argv[1] == 'compile':
-- 
2.43.0


From 9591bfc2367bc59f15a8cdc6f96c7645a383bed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:05 +0000
Subject: [PATCH 45/53] fix: find included documents in a target directory with
 any name

---
 recipes/doc2html.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recipes/doc2html.py b/recipes/doc2html.py
index 3592510..15a17bb 100755
--- a/recipes/doc2html.py
+++ b/recipes/doc2html.py
@@ -7,6 +7,7 @@ import json
 import xml.etree.ElementTree as ET
 import os
 import re
+import urllib.parse
 
 def compile(args):
 	target_dir = args['build_info']['target_dir']
@@ -14,7 +15,8 @@ def compile(args):
 	source_file = args['source_file']
 	current_dir =  target_dir + '/' + os.path.relpath(os.path.dirname(source_file) or '.', args['build_info']['source_dir'])
 	with open(os.path.dirname(__file__) + '/doc2html.xsl') as f:
-		cmd = ['xsltproc', '-o', targets[0], '--nonet', '--stringparam', 'current_dir', current_dir, '-', source_file]
+		# The style sheet uses current_dir as a part of an URI
+		cmd = ['xsltproc', '-o', targets[0], '--nonet', '--stringparam', 'current_dir', urllib.parse.quote(current_dir), '-', source_file]
 		proc = subprocess.Popen(cmd, stdin=f, stderr=subprocess.PIPE)
 		outs, errs = proc.communicate()
 		if errs != b'':
-- 
2.43.0


From 629085c26dffbd525dde84ee8a9ea63f3ea1de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:29 +0000
Subject: [PATCH 46/53] fix: fail if an included document can't be read

---
 recipes/doc2html.xsl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recipes/doc2html.xsl b/recipes/doc2html.xsl
index b12228f..d572a28 100644
--- a/recipes/doc2html.xsl
+++ b/recipes/doc2html.xsl
@@ -156,6 +156,9 @@
 </xsl:template>
 
 <xsl:template match="include">
+	<xsl:if test="not(document(concat($current_dir, '/', @src))/content)">
+		<xsl:message terminate="yes">Failed to include `<xsl:value-of select="@src" />`</xsl:message>
+	</xsl:if>
 	<xsl:choose>
 		<xsl:when test="count(ancestor::appendix) > 0">
 			<xsl:apply-templates select="document(concat($current_dir, '/', @src))/content/*" mode="appendix"/>
-- 
2.43.0


From 44b0fdb85c36275dc5405cc27613276771ececdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:59 +0000
Subject: [PATCH 47/53] fix: name paragraphs in references to them

---
 recipes/doc2html.xsl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/doc2html.xsl b/recipes/doc2html.xsl
index d572a28..f2fd3c3 100644
--- a/recipes/doc2html.xsl
+++ b/recipes/doc2html.xsl
@@ -92,7 +92,7 @@
 </a>
 </xsl:template>
 
-<xsl:key name="item" match="chapter|section|subsection|subsubsection|figure" use="@id"/>
+<xsl:key name="item" match="chapter|section|subsection|subsubsection|paragraph|figure" use="@id"/>
 
 <xsl:template match="ref">
 <a><xsl:attribute name="href">#<xsl:value-of select="@item"/></xsl:attribute>
-- 
2.43.0


From e55423e41560d57d4ed6f340a6009ccf46e5df3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:27 +0000
Subject: [PATCH 48/53] fix: convert what stands at the top level of a file
 included in an appendix

---
 recipes/doc2html.xsl | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/recipes/doc2html.xsl b/recipes/doc2html.xsl
index f2fd3c3..29002c7 100644
--- a/recipes/doc2html.xsl
+++ b/recipes/doc2html.xsl
@@ -13,9 +13,7 @@
 </xsl:template>
 
 <xsl:template match="@*|node()" mode="appendix">
-	<xsl:copy>
-		<xsl:apply-templates select="@*|node()" mode="appendix"/>
-	</xsl:copy>
+	<xsl:apply-templates select="." />
 </xsl:template>
 
 <xsl:template match="figure/caption">
-- 
2.43.0


From effe22da20c7282669b6d4bba7c0170801dac63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:27 +0000
Subject: [PATCH 49/53] fix: cxx_compiler.py depends on cxx_linker.py

---
 recipes/cxx_compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 98d9910..050d8b2 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -1,6 +1,6 @@
 #!/usr/bin/env python3
 
-#@	{"dependencies":[{"ref":"./pkg_config.py","origin":"project"}]}
+#@	{"dependencies":[{"ref":"./pkg_config.py","origin":"project"}, {"ref":"./cxx_linker.py","origin":"project"}]}
 
 import sys
 import json
-- 
2.43.0


From a5c8d92ab0efb09857bb82834eb436378c9d6216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:53 +0000
Subject: [PATCH 50/53] fix: refuse strings that are not UTF-8, instead of
 leaving them out

---
 core/key_value_store/json_handle.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/key_value_store/json_handle.hpp b/core/key_value_store/json_handle.hpp
index e35999a..e7135a4 100644
--- a/core/key_value_store/json_handle.hpp
+++ b/core/key_value_store/json_handle.hpp
@@ -173,6 +173,9 @@ namespace Maike::KeyValueStore
 
 		explicit JsonHandle(char const* x): JsonHandle{json_string(x)}
 		{
+			// There are no other strings than those encoded in UTF-8
+			if(m_handle == nullptr)
+			{ throw std::runtime_error{std::string{"Not a valid UTF-8 string: `"} + x + "`"}; }
 		}
 
 		explicit JsonHandle(std::string const& x): JsonHandle{x.c_str()}
-- 
2.43.0


From 7936f4356effd08656214e3076a19468ef28c708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:35 +0000
Subject: [PATCH 51/53] fix: start programs with the usual handling of broken
 pipes

---
 core/exec/execve.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index cd26da9..dada4fd 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -195,6 +195,8 @@ Maike::Exec::ExitStatus Maike::Exec::execve(fs::path const& executable,
 			stdin.moveReadEndTo(STDIN_FILENO);
 			stdout.moveWriteEndTo(STDOUT_FILENO);
 			stderr.moveWriteEndTo(STDERR_FILENO);
+			// A broken pipe is ignored in this process, but should not be so in the child
+			signal(SIGPIPE, SIG_DFL);
 			auto fd_exec_err = exec_err.closeWriteEndOnExec();
 			if(::execve(executable.c_str(), const_cast<char* const*>(cmd_args.data()), environ) == -1)
 			{
-- 
2.43.0


From 09ad1f34f1a488558ad0c9ed0c8be795128a8574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:35 +0000
Subject: [PATCH 52/53] fix: run clang-tidy again if it has failed

---
 recipes/cxx_compiler.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 050d8b2..ffba9be 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -54,6 +54,18 @@ def get_actions(compiler_cfg):
 
 	return ret
 
+def check(targets, command):
+	succeeded = False
+	try:
+		result = subprocess.run(command)
+		succeeded = result.returncode == 0
+		return result
+	finally:
+		if not succeeded:
+			# Run it again the next time
+			for target in targets:
+				os.utime(target, (0, 0))
+
 no_op = {'.hpp', '.h', '.hxx'}
 
 def compile(build_args):
@@ -94,16 +106,12 @@ def compile(build_args):
 			raise('%: error: Running requires target to be linked'%(build_args['targets'][0]))
 		print('%s: Running %s'%(build_args['source_file'], build_args['targets'][0]))
 		sys.stdout.flush()
-		result = subprocess.run([build_args['targets'][0]])
-		if result.returncode != 0:
-			# Run it again the next time
-			for target in build_args['targets']:
-				os.utime(target, (0, 0))
+		result = check(build_args['targets'], [build_args['targets'][0]])
 
 	if 'sanitize' in actions and result.returncode == 0:
 		tidycmd = ['clang-tidy', build_args['source_file'], '--', '-Wno-unknown-warning-option']
 		tidycmd.extend(args)
-		result = subprocess.run(tidycmd)
+		result = check(build_args['targets'], tidycmd)
 		print('cxx_compiler.py: clang-tidy returned %d'%result.returncode)
 
 	return result.returncode
-- 
2.43.0


From 570a886e0b8f1449534d2bfb8a6119777fa5d614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:35 +0000
Subject: [PATCH 53/53] fix: keep the text of headings with markup

---
 recipes/md2htmlpart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/md2htmlpart.py b/recipes/md2htmlpart.py
index 7ba1168..1783b51 100755
--- a/recipes/md2htmlpart.py
+++ b/recipes/md2htmlpart.py
@@ -25,7 +25,7 @@ def convert(src_file, target):
 	for section in find_elements(root, 'section', []):
 		for elem in section.findall('./*'):
 			if elem.tag.startswith('h'):
-				section.attrib['title'] = elem.text
+				section.attrib['title'] = ''.join(elem.itertext())
 				section.attrib.pop('class', None)
 				section.remove(elem)
 				break
-- 
2.43.0

