From 6f4d9c1470eabb2c02eca77f710de1d36c15794a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:20 +0000
Subject: [PATCH 01/72] fix: make log level and sink mode safe to change while
 other threads are logging

The global lowest log level was written and read without synchronization, was
temporarily 'never' during updates, and set_log_level() temporarily unregistered
the sink, so concurrent messages could get lost.
---
 xo/system/log.cpp      | 8 +++++---
 xo/system/log_sink.cpp | 5 ++---
 xo/system/log_sink.h   | 8 +++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/xo/system/log.cpp b/xo/system/log.cpp
index a22e881..4b5e897 100644
--- a/xo/system/log.cpp
+++ b/xo/system/log.cpp
@@ -5,6 +5,7 @@
 #include "xo/container/vector_type.h"
 #include "xo/container/container_tools.h"
 #include <stdarg.h>
+#include <atomic>
 #include <mutex>
 #include <shared_mutex>
 
@@ -14,7 +15,7 @@ namespace xo
 	{
 		xo::vector< sink* > global_sinks;
 		std::shared_mutex global_sink_mutex;
-		level global_lowest_log_level = level::never;
+		std::atomic<level> global_lowest_log_level{ level::never }; // tested without lock
 
 		void log_string( level l, const string& str )
 		{
@@ -43,9 +44,10 @@ namespace xo
 
 		void update_global_log_level_thread_unsafe()
 		{
-			global_lowest_log_level = log::level::never;
+			auto lowest_log_level = log::level::never;
 			for ( auto s : global_sinks )
-				xo::set_if_smaller( global_lowest_log_level, s->get_log_level() );
+				xo::set_if_smaller( lowest_log_level, s->get_log_level() );
+			global_lowest_log_level = lowest_log_level;
 		}
 
 		void add_sink( sink* s )
diff --git a/xo/system/log_sink.cpp b/xo/system/log_sink.cpp
index 507ff18..546b598 100644
--- a/xo/system/log_sink.cpp
+++ b/xo/system/log_sink.cpp
@@ -50,8 +50,7 @@ namespace xo
 		void sink::set_log_level( level l )
 		{
 			log_level_ = l;
-			remove_sink( this );
-			add_sink( this ); // re-add to update global log level
+			add_sink( this ); // does not add again if already present, but updates global log level
 		}
 
 		level sink::get_log_level()
@@ -61,8 +60,8 @@ namespace xo
 
 		void sink::set_sink_mode( sink_mode m )
 		{
-			sink_mode_ = m;
 			thread_id_ = std::this_thread::get_id();
+			sink_mode_ = m;
 		}
 
 		stream_sink::stream_sink( std::ostream& str, level l, sink_mode m ) :
diff --git a/xo/system/log_sink.h b/xo/system/log_sink.h
index 269262d..8a60baf 100644
--- a/xo/system/log_sink.h
+++ b/xo/system/log_sink.h
@@ -4,6 +4,7 @@
 #include "xo/string/string_type.h"
 #include "xo/filesystem/path.h"
 
+#include <atomic>
 #include <fstream>
 #include <thread>
 #include "log_format.h"
@@ -39,10 +40,11 @@ namespace xo
 			format_flags& format() { return format_; }
 
 		protected:
-			level log_level_;
+			// these can be changed while other threads are logging
+			std::atomic<level> log_level_;
 			format_flags format_;
-			sink_mode sink_mode_;
-			std::thread::id thread_id_;
+			std::atomic<sink_mode> sink_mode_;
+			std::atomic<std::thread::id> thread_id_;
 
 			/// handle log message without testing
 			virtual void hande_log_message( level l, const string& msg ) = 0;
-- 
2.43.0


From 4bc25585d296a261c5dacf58cf5759a5f1c8f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:34 +0000
Subject: [PATCH 02/72] fix: use localtime_r in get_date_time_str

The time prefix of log messages was created with std::localtime, which is not
thread safe, while stream sinks are called from multiple threads.
---
 xo/system/system_tools.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xo/system/system_tools.cpp b/xo/system/system_tools.cpp
index 9927117..91a62be 100644
--- a/xo/system/system_tools.cpp
+++ b/xo/system/system_tools.cpp
@@ -46,8 +46,14 @@ namespace xo
 
 	XO_API string get_date_time_str( const std::time_t& t, const char* format )
 	{
+		std::tm tm = {};
+#ifdef XO_COMP_MSVC
+		localtime_s( &tm, &t );
+#else
+		localtime_r( &t, &tm ); // std::localtime() is not thread safe
+#endif
 		std::stringstream ss;
-		ss << std::put_time( std::localtime( &t ), format );
+		ss << std::put_time( &tm, format );
 		return ss.str();
 	}
 
-- 
2.43.0


From 52b9bad5c4ffbb5e0370c16b750a5fb5591b7ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:00 +0000
Subject: [PATCH 03/72] fix: keep lines of stream and file sinks whole when
 multiple threads log

log_string() only holds a shared lock, so stream_sink and file_sink were writing to
the same std::ostream from different threads without any synchronization.
---
 xo/system/log_sink.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xo/system/log_sink.cpp b/xo/system/log_sink.cpp
index 546b598..19471a7 100644
--- a/xo/system/log_sink.cpp
+++ b/xo/system/log_sink.cpp
@@ -73,11 +73,13 @@ namespace xo
 		{
 			// #todo: make the time prefix an option
 			auto str = get_date_time_str( "%H:%M:%S " );
+			std::scoped_lock lock( g_console_mutex ); // stream can be shared, keep lines whole
 			stream_ << str << msg << std::endl;
 		}
 
 		void stream_sink::flush()
 		{
+			std::scoped_lock lock( g_console_mutex );
 			stream_.flush();
 		}
 
@@ -143,8 +145,8 @@ namespace xo
 
 		void file_sink::hande_log_message( level l, const string& msg )
 		{
-			if ( file_stream_.good() )
-				stream_sink::hande_log_message( l, msg );
+			// no need to test the stream here, writing to a failed stream has no effect
+			stream_sink::hande_log_message( l, msg );
 		}
 	}
 }
-- 
2.43.0


From 82e25013665529eff46577b8e90cdaea37ba25c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:18 +0000
Subject: [PATCH 04/72] fix: register built-in log sinks after construction,
 unregister before destruction

Sinks were visible to other threads while they were still being constructed (pure
virtual call, use of an uninitialized stream) and after the derived part was gone.
---
 xo/system/log_sink.cpp | 40 ++++++++++++++++++++++++++++++++++------
 xo/system/log_sink.h   |  8 ++++++++
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/xo/system/log_sink.cpp b/xo/system/log_sink.cpp
index 19471a7..16e5498 100644
--- a/xo/system/log_sink.cpp
+++ b/xo/system/log_sink.cpp
@@ -20,11 +20,15 @@ namespace xo
 	{
 		std::mutex g_console_mutex;
 
-		sink::sink( level l, format_flags fmt, sink_mode m ) :
+		sink::sink( unregistered, level l, format_flags fmt, sink_mode m ) :
 			log_level_( l ),
 			format_( fmt ),
 			sink_mode_( m ),
 			thread_id_( std::this_thread::get_id() )
+		{}
+
+		sink::sink( level l, format_flags fmt, sink_mode m ) :
+			sink( unregistered(), l, fmt, m )
 		{
 			add_sink( this );
 		}
@@ -64,11 +68,22 @@ namespace xo
 			sink_mode_ = m;
 		}
 
-		stream_sink::stream_sink( std::ostream& str, level l, sink_mode m ) :
-			sink( l, { format::show_time }, m ),
+		stream_sink::stream_sink( unregistered, std::ostream& str, level l, sink_mode m ) :
+			sink( unregistered(), l, { format::show_time }, m ),
 			stream_( str )
 		{}
 
+		stream_sink::stream_sink( std::ostream& str, level l, sink_mode m ) :
+			stream_sink( unregistered(), str, l, m )
+		{
+			add_sink( this );
+		}
+
+		stream_sink::~stream_sink()
+		{
+			remove_sink( this ); // other threads must not use this sink during destruction
+		}
+
 		void stream_sink::hande_log_message( level l, const string& msg )
 		{
 			// #todo: make the time prefix an option
@@ -84,8 +99,15 @@ namespace xo
 		}
 
 		console_sink::console_sink( level l, sink_mode m ) :
-			stream_sink( std::cout, l, m )
-		{}
+			stream_sink( unregistered(), std::cout, l, m )
+		{
+			add_sink( this );
+		}
+
+		console_sink::~console_sink()
+		{
+			remove_sink( this );
+		}
 
 		void console_sink::hande_log_message( level l, const string& msg )
 		{
@@ -136,11 +158,17 @@ namespace xo
 		}
 
 		file_sink::file_sink( const path& file, level l, sink_mode m ) :
-			stream_sink( file_stream_, l, m )
+			stream_sink( unregistered(), file_stream_, l, m )
 		{
 			if ( file.has_parent_path() )
 				create_directories( file.parent_path() );
 			file_stream_.open( file.str() );
+			add_sink( this );
+		}
+
+		file_sink::~file_sink()
+		{
+			remove_sink( this );
 		}
 
 		void file_sink::hande_log_message( level l, const string& msg )
diff --git a/xo/system/log_sink.h b/xo/system/log_sink.h
index 8a60baf..7dcb19f 100644
--- a/xo/system/log_sink.h
+++ b/xo/system/log_sink.h
@@ -46,6 +46,10 @@ namespace xo
 			std::atomic<sink_mode> sink_mode_;
 			std::atomic<std::thread::id> thread_id_;
 
+			/// construct without add_sink(), so that derived classes can add after they are fully constructed
+			struct unregistered {};
+			sink( unregistered, level l, format_flags fmt, sink_mode m );
+
 			/// handle log message without testing
 			virtual void hande_log_message( level l, const string& msg ) = 0;
 		};
@@ -54,10 +58,12 @@ namespace xo
 		{
 		public:
 			stream_sink( std::ostream& str, level l, sink_mode m = sink_mode::all_threads );
+			virtual ~stream_sink();
 			virtual void hande_log_message( level l, const string& msg ) override;
 			virtual void flush() override;
 
 		protected:
+			stream_sink( unregistered, std::ostream& str, level l, sink_mode m );
 			std::ostream& stream_;
 		};
 
@@ -65,6 +71,7 @@ namespace xo
 		{
 		public:
 			console_sink( level l, sink_mode m = sink_mode::all_threads );
+			virtual ~console_sink();
 			virtual void hande_log_message( level l, const string& msg ) override;
 		};
 
@@ -72,6 +79,7 @@ namespace xo
 		{
 		public:
 			file_sink( const path& file, level l, sink_mode m = sink_mode::all_threads );
+			virtual ~file_sink();
 			virtual void hande_log_message( level l, const string& msg ) override;
 			const std::ofstream& file_stream() const { return file_stream_; }
 
-- 
2.43.0


From 4f4b55e7ad54946a6c1c664dfdb7c6eef3714299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:28 +0000
Subject: [PATCH 05/72] fix: retry loading a modified file after a failed
 reload in file_resource_cache

The new file time was stored before the file was loaded, so if loading failed once,
all later requests returned the outdated resource without an error.
---
 xo/utility/file_resource_cache.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xo/utility/file_resource_cache.h b/xo/utility/file_resource_cache.h
index 335d301..7d799e8 100644
--- a/xo/utility/file_resource_cache.h
+++ b/xo/utility/file_resource_cache.h
@@ -43,8 +43,9 @@ namespace xo
 						if ( file_time != item->file_time_ )
 						{
 							// file was modified, reload
-							item->file_time_ = file_time;
+							// set file_time_ after loading, so that a failed reload is tried again
 							item->data_.reset( create_( p ) );
+							item->file_time_ = file_time;
 						}
 					}
 					catch ( std::exception& e ) {
-- 
2.43.0


From 29819f4c410e0bd5c991bafbedd2bf20b49382c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:20 +0000
Subject: [PATCH 06/72] fix: make file_resource_cache check interval
 independent of system time changes

When the system time was set back, modified files were not noticed until the system
time had caught up again.
---
 xo/utility/file_resource_cache.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/xo/utility/file_resource_cache.h b/xo/utility/file_resource_cache.h
index 7d799e8..d209c76 100644
--- a/xo/utility/file_resource_cache.h
+++ b/xo/utility/file_resource_cache.h
@@ -5,6 +5,8 @@
 #include "xo/container/container_tools.h"
 #include "xo/string/string_type.h"
 
+#include <chrono>
+#include <functional>
 #include <mutex>
 #include <shared_mutex>
 #include <ctime>
@@ -29,8 +31,8 @@ namespace xo
 			if ( item )
 			{
 				// check how long ago we checked if the file was modified
-				auto wall_time = std::time( nullptr );
-				if ( std::difftime( wall_time, item->last_checked_time_ ) > min_check_modified_interval )
+				auto current_time = clock::now();
+				if ( current_time - item->last_checked_time_ > min_check_modified_interval )
 				{
 					// we haven't checked for a while
 					read_lock.unlock();
@@ -38,7 +40,7 @@ namespace xo
 					{
 						// check if the file has been modified
 						std::unique_lock write_lock( mutex_ );
-						item->last_checked_time_ = wall_time;
+						item->last_checked_time_ = current_time;
 						auto file_time = last_write_time( p );
 						if ( file_time != item->file_time_ )
 						{
@@ -69,7 +71,7 @@ namespace xo
 					{
 						cached_item new_item;
 						new_item.file_time_ = last_write_time( p );
-						new_item.last_checked_time_ = std::time( nullptr );
+						new_item.last_checked_time_ = clock::now();
 						new_item.data_.reset( create_( p ) );
 						auto [it, is_new_item] = cached_items_.insert( std::make_pair( p, std::move( new_item ) ) );
 						item = &it->second;
@@ -89,11 +91,12 @@ namespace xo
 		static T* default_create( const PathT& f ) { return new T( f ); }
 		static T* default_clone( const T& o ) { return new T( o ); }
 
-		static constexpr double min_check_modified_interval = 3.0; // interval in seconds
+		using clock = std::chrono::steady_clock; // not affected by changes of the system time
+		static constexpr std::chrono::seconds min_check_modified_interval{ 3 };
 
 		struct cached_item {
 			time_t file_time_;
-			time_t last_checked_time_;
+			clock::time_point last_checked_time_;
 			u_ptr<T> data_;
 		};
 
-- 
2.43.0


From 98589cd7382c24f290e2290afde0df182a350c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:20 +0000
Subject: [PATCH 07/72] fix: make interrupt flag atomic

interruptible::interrupt() is called from another thread than test_interrupt_flag().
---
 xo/thread/interruptible.cpp | 9 +++++++++
 xo/thread/interruptible.h   | 6 +++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/xo/thread/interruptible.cpp b/xo/thread/interruptible.cpp
index 89b2677..a53692c 100644
--- a/xo/thread/interruptible.cpp
+++ b/xo/thread/interruptible.cpp
@@ -5,6 +5,15 @@ namespace xo
 	interruptible::interruptible() : interrupt_flag_( false )
 	{}
 
+	interruptible::interruptible( const interruptible& other ) : interrupt_flag_( other.interrupt_flag_.load() )
+	{}
+
+	interruptible& interruptible::operator=( const interruptible& other )
+	{
+		interrupt_flag_ = other.interrupt_flag_.load();
+		return *this;
+	}
+
 	interruptible::~interruptible()
 	{}
 
diff --git a/xo/thread/interruptible.h b/xo/thread/interruptible.h
index 70b4755..9a6d52a 100644
--- a/xo/thread/interruptible.h
+++ b/xo/thread/interruptible.h
@@ -2,18 +2,22 @@
 
 #include "xo/system/xo_config.h"
 
+#include <atomic>
+
 namespace xo
 {
 	class XO_API interruptible
 	{
 	public:
 		interruptible();
+		interruptible( const interruptible& other );
+		interruptible& operator=( const interruptible& other );
 		virtual ~interruptible();
 
 		virtual void interrupt() const;
 		bool test_interrupt_flag() const;
 
 	private:
-		mutable bool interrupt_flag_;
+		mutable std::atomic_bool interrupt_flag_; // set and tested by different threads
 	};
 }
-- 
2.43.0


From 7c3a332292d5eaacfd96b81ba6f459b588e81df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 08/72] fix: report read and write errors in load_string,
 save_string and append_string

Read errors made load_string return part of the file, and write errors (e.g. disk full)
in save_string and append_string were ignored, without setting the error_code.
---
 xo/filesystem/filesystem.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/xo/filesystem/filesystem.cpp b/xo/filesystem/filesystem.cpp
index 1b65df7..71e0fa3 100644
--- a/xo/filesystem/filesystem.cpp
+++ b/xo/filesystem/filesystem.cpp
@@ -264,14 +264,17 @@ namespace xo
 
 	string load_string( const path& filename, error_code* ec )
 	{
-		// this method uses a stringbuf, which requires an extra copy (C++ suckiness)
 		std::ifstream ifstr( filename.str() );
 		if ( !ifstr.good() )
 			return set_error_or_throw( ec, "Could not open " + filename.str() ), "";
 
-		std::stringstream str;
-		str << ifstr.rdbuf();
-		return str.str();
+		string str;
+		char buf[4096];
+		while ( ifstr.read( buf, sizeof( buf ) ) || ifstr.gcount() > 0 )
+			str.append( buf, size_t( ifstr.gcount() ) );
+		if ( ifstr.bad() ) // never return part of a file
+			return set_error_or_throw( ec, "Could not read " + filename.str() ), "";
+		return str;
 	}
 
 	void save_string( const path& filename, const string& s, error_code* ec )
@@ -279,7 +282,12 @@ namespace xo
 		xo::create_directories( filename.parent_path().str() );
 		std::ofstream ofstr( filename.str() );
 		if ( ofstr.good() )
+		{
 			ofstr << s;
+			ofstr.close(); // flush before checking for errors
+			if ( !ofstr.good() )
+				set_error_or_throw( ec, "Could not write " + filename.str() );
+		}
 		else set_error_or_throw( ec, "Could not open " + filename.str() );
 	}
 
@@ -288,7 +296,12 @@ namespace xo
 		xo::create_directories( filename.parent_path().str() );
 		std::ofstream ofstr( filename.str(), std::ios_base::app );
 		if ( ofstr.good() )
+		{
 			ofstr << s;
+			ofstr.close(); // flush before checking for errors
+			if ( !ofstr.good() )
+				set_error_or_throw( ec, "Could not write " + filename.str() );
+		}
 		else set_error_or_throw( ec, "Could not open " + filename.str() );
 	}
 
-- 
2.43.0


From 950624f4190f2b63d5b54c831aaf68584b18001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 09/72] fix: directory_exists returned true for sockets and
 block devices

---
 xo/filesystem/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/filesystem/filesystem.cpp b/xo/filesystem/filesystem.cpp
index 71e0fa3..2393e5a 100644
--- a/xo/filesystem/filesystem.cpp
+++ b/xo/filesystem/filesystem.cpp
@@ -155,7 +155,7 @@ namespace xo
 		struct stat status;
 		if ( stat( folder.c_str(), &status ) == 0 )
 		{
-			if ( status.st_mode & S_IFDIR )
+			if ( S_ISDIR( status.st_mode ) ) // the type is not a set of flags, sockets and block devices share bits
 				return true;
 		}
 		return false; // if any condition fails
-- 
2.43.0


From 35b24628f50dc1dcc3e9ce870fc9a59038176b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:02 +0000
Subject: [PATCH 10/72] fix: put zml labels and values that contain '=' or a
 single quote between quotes

They were written without quotes and could not be read back.
---
 xo/serialization/prop_node_serializer_zml.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index c3bc481..83ac2d7 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -166,17 +166,20 @@ namespace xo
 		return parse_zml( stream, ec, path() );
 	}
 
+	// characters that cannot be part of an unquoted label or value
+	const char* zml_special_chars = "{}[]#<>\\/='";
+
 	void write_zml_kvp( std::ostream& str, const string& label, const prop_node& pn, const char* equals_str, bool inside_array )
 	{
 		bool show_label = !label.empty();
 		bool show_value = !pn.get_str().empty() || pn.size() == 0;
 		xo_error_if( !show_label && show_value && !inside_array, "Value without label outside array" );
 		if ( show_label )
-			str << try_quoted( label, "{}[]#<>\\/" );
+			str << try_quoted( label, zml_special_chars );
 		if ( show_label && show_value )
 			str << equals_str;
 		if ( show_value )
-			str << try_quoted( pn.get_str(), "{}[]#<>\\/" );
+			str << try_quoted( pn.get_str(), zml_special_chars );
 	}
 
 	void write_zml_node_one_line( std::ostream& str, const string& label, const prop_node& pn, bool inside_array )
-- 
2.43.0


From 6efd76ea9ee57085e7367ed4cda12935c739c777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:51 +0000
Subject: [PATCH 11/72] fix: infinite loop when a quoted string ends with a
 backslash at the end of a file

---
 xo/string/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index ce39b70..883624f 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -307,7 +307,7 @@ namespace xo
 	char decode_char( const char* buf, size_t buf_size, int* len )
 	{
 		xo_error_if( buf_size == 0, "Invalid buffer size" );
-		*len = 0;
+		*len = 1; // also for a single backslash at the end of the buffer, otherwise callers never advance
 		if ( *buf != '\\' || buf_size == 1 )
 			return *buf;
 
-- 
2.43.0


From 1a8b2c099bbd7b0d1d6a52ee8bd3c85af6a30d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 12/72] fix: non-ASCII characters were replaced by '?' when
 writing and reading quoted strings

char is signed, so the bytes of UTF-8 characters were treated as control characters.
---
 xo/string/string_tools.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index 883624f..4691384 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -291,7 +291,7 @@ namespace xo
 			return "\\\"";
 		else if ( c == '\\' )
 			return "\\\\";
-		else if ( c < 32 )
+		else if ( static_cast<unsigned char>( c ) < 32 )
 		{
 			switch ( c )
 			{
@@ -343,7 +343,7 @@ namespace xo
 		string sout = "\"";
 		for ( const char& c : s )
 		{
-			if ( c == '\"' || c == '\\' || c < 32 )
+			if ( c == '\"' || c == '\\' || static_cast<unsigned char>( c ) < 32 )
 				sout += encode_char( c );
 			else sout += c;
 		}
@@ -354,7 +354,7 @@ namespace xo
 	bool needs_quotes( const string& s, const char* special_chars )
 	{
 		for ( const char& c : s )
-			if ( c < 33 || c == '\"' || strchr( special_chars, c ) )
+			if ( static_cast<unsigned char>( c ) < 33 || c == '\"' || strchr( special_chars, c ) )
 				return true;
 		return s.empty();
 	}
-- 
2.43.0


From 6a4c78ce8085438aeb082b2eb72577a90fed3583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 13/72] fix: report write errors in save_file

save_file returned true when the file could not be (completely) written, e.g. because the disk was full.
---
 xo/serialization/prop_node_serializer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xo/serialization/prop_node_serializer.cpp b/xo/serialization/prop_node_serializer.cpp
index c837cfc..fa1c4a0 100644
--- a/xo/serialization/prop_node_serializer.cpp
+++ b/xo/serialization/prop_node_serializer.cpp
@@ -43,6 +43,9 @@ namespace xo
 			ec_ = ec;
 			file_folder_ = filename.parent_path();
 			write_stream( str );
+			str.close(); // flush before checking for errors
+			if ( !str.good() )
+				set_error_or_throw( ec, "Could not write " + filename.str() );
 		}
 		else set_error_or_throw( ec, "Could not create " + filename.str() );
 	}
-- 
2.43.0


From 9bd63aa0287c6576506f5d3685d550e1460cc399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:22 +0000
Subject: [PATCH 14/72] fix: use the error_code for read errors and malformed
 ini and xml files

Loading a file with an error_code could still throw after a read error, for ini lines
without '=' and for invalid xml. Read errors could go unnoticed for ini files.
---
 xo/serialization/prop_node_serializer.cpp     | 10 ++++++++++
 xo/serialization/prop_node_serializer.h       |  4 ++++
 xo/serialization/prop_node_serializer_ini.cpp |  5 ++++-
 xo/serialization/prop_node_serializer_xml.cpp | 12 ++++++++++--
 xo/serialization/prop_node_serializer_zml.cpp |  5 ++++-
 5 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/xo/serialization/prop_node_serializer.cpp b/xo/serialization/prop_node_serializer.cpp
index fa1c4a0..036c005 100644
--- a/xo/serialization/prop_node_serializer.cpp
+++ b/xo/serialization/prop_node_serializer.cpp
@@ -34,6 +34,16 @@ namespace xo
 		else return set_error_or_throw( ec, "Could not open " + filename.str() ), prop_node();
 	}
 
+	bool prop_node_serializer::read_all( std::istream& str, std::string& contents )
+	{
+		char buf[4096];
+		while ( str.read( buf, sizeof( buf ) ) || str.gcount() > 0 )
+			contents.append( buf, size_t( str.gcount() ) );
+		if ( str.bad() )
+			return set_error_or_throw( ec_, "Could not read from file or stream" ), false;
+		return true;
+	}
+
 	void prop_node_serializer::save_file( const prop_node& pn, const path& filename, error_code* ec )
 	{
 		std::ofstream str( filename.str() );
diff --git a/xo/serialization/prop_node_serializer.h b/xo/serialization/prop_node_serializer.h
index b89dcdb..6155867 100644
--- a/xo/serialization/prop_node_serializer.h
+++ b/xo/serialization/prop_node_serializer.h
@@ -3,6 +3,7 @@
 #include "xo/xo_types.h"
 #include "xo/filesystem/path.h"
 #include <iosfwd>
+#include <string>
 #include <vector>
 
 namespace xo
@@ -20,6 +21,9 @@ namespace xo
 		prop_node load_file( const path& filename, error_code* ec = nullptr );
 		void save_file( const prop_node& pn, const path& filename, error_code* ec = nullptr );
 
+		/// read all characters from a stream, returns false and sets ec_ (or throws) after a read error
+		bool read_all( std::istream& str, std::string& contents );
+
 		prop_node* read_pn_;
 		const prop_node* write_pn_;
 		error_code* ec_;
diff --git a/xo/serialization/prop_node_serializer_ini.cpp b/xo/serialization/prop_node_serializer_ini.cpp
index 88eecbe..575243a 100644
--- a/xo/serialization/prop_node_serializer_ini.cpp
+++ b/xo/serialization/prop_node_serializer_ini.cpp
@@ -33,6 +33,8 @@ namespace xo
 		{
 			char buf[1024];
 			str.getline( buf, sizeof( buf ) );
+			if ( str.bad() )
+				return set_error_or_throw( ec_, "Error reading ini file" ), str;
 			if ( str.fail() && !str.eof() )
 				return set_error_or_throw( ec_, "Error reading ini file, line too long" ), str;
 
@@ -52,7 +54,8 @@ namespace xo
 
 			// must be a key = value line
 			auto kvp = make_key_value_str( line );
-			xo_error_if( kvp.first == line, "Error loading ini file, expected '='" );
+			if ( kvp.first == line )
+				return set_error_or_throw( ec_, "Error loading ini file, expected '='" ), str;
 			cur_group->set( kvp.first, kvp.second );
 		}
 		return str;
diff --git a/xo/serialization/prop_node_serializer_xml.cpp b/xo/serialization/prop_node_serializer_xml.cpp
index 4641d89..ddd79d5 100644
--- a/xo/serialization/prop_node_serializer_xml.cpp
+++ b/xo/serialization/prop_node_serializer_xml.cpp
@@ -20,6 +20,7 @@ namespace rapidxml {
 #include <contrib/rapidxml-1.13/rapidxml_print.hpp>
 
 #include "xo/container/prop_node.h"
+#include "xo/system/error_code.h"
 #include <iostream>
 
 namespace xo
@@ -59,8 +60,15 @@ namespace xo
 	{
 		xo_assert( read_pn_ );
 		rapidxml::xml_document<> doc;
-		std::string file_contents( std::istreambuf_iterator<char>( str ), {} );
-		doc.parse< 0 >( &file_contents[0] ); // not officially supported but probably safe
+		std::string file_contents;
+		if ( !read_all( str, file_contents ) )
+			return str;
+		try {
+			doc.parse< 0 >( &file_contents[0] ); // not officially supported but probably safe
+		}
+		catch ( const rapidxml::parse_error& e ) {
+			return set_error_or_throw( ec_, std::string( "Error parsing xml: " ) + e.what() ), str;
+		}
 		if ( doc.first_node() )
 			read_pn_->add_child( doc.first_node()->name(), get_rapid_xml_node( doc.first_node() ) );
 		return str;
diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 83ac2d7..581a08f 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -269,7 +269,10 @@ namespace xo
 	{
 		xo_assert( read_pn_ );
 		// #todo: more efficient. parser should be able to take any stream type.
-		char_stream stream( string( std::istreambuf_iterator<char>( str ), {} ) );
+		string contents;
+		if ( !read_all( str, contents ) )
+			return str;
+		char_stream stream( std::move( contents ) );
 		*read_pn_ = parse_zml( stream, ec_, file_folder_, &included_files_ );
 		return str;
 	}
-- 
2.43.0


From 218b196c6701a6ae9c7785da935ac1671e4f9f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 15/72] fix: endless recursion when zml files include each
 other

---
 xo/serialization/prop_node_serializer_zml.cpp | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 581a08f..548065e 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -43,7 +43,12 @@ namespace xo
 		}
 	}
 
-	void read_zml_layer( char_stream& str, prop_node& parent, const string& close, error_code* ec, const path& folder, vector<path>* included_files, const prop_node& root, prop_node& macros )
+	// includes more levels than this are considered a loop
+	constexpr int max_zml_include_level = 100;
+
+	prop_node load_zml_include( const path& filename, error_code* ec, vector<path>* included_files, int level );
+
+	void read_zml_layer( char_stream& str, prop_node& parent, const string& close, error_code* ec, const path& folder, vector<path>* included_files, const prop_node& root, prop_node& macros, int level )
 	{
 		// keep track of the number of macros so we can delete them at the end of this scope
 		auto macro_count = macros.size();
@@ -61,7 +66,11 @@ namespace xo
 					zml_error( str, ec, "'<<' has no find matching '>>'" );
 				if ( filename.is_relative() )
 					filename = folder / filename;
-				parent.append( load_zml( filename, ec ) );
+				if ( ec && ec->bad() )
+					return; // don't include files after an error
+				if ( level >= max_zml_include_level )
+					return zml_error( str, ec, "Exceeded maximum include level, check for loops in includes" );
+				parent.append( load_zml_include( filename, ec, nullptr, level + 1 ) );
 				if ( included_files )
 					included_files->emplace_back( std::move( filename ) );
 			}
@@ -101,9 +110,9 @@ namespace xo
 
 				// parse value element after
 				if ( t == "{" ) // new group
-					read_zml_layer( str, *next_parent, "}", ec, folder, included_files, root, macros );
+					read_zml_layer( str, *next_parent, "}", ec, folder, included_files, root, macros, level );
 				else if ( t == "[" ) // new array
-					read_zml_layer( str, *next_parent, "]", ec, folder, included_files, root, macros );
+					read_zml_layer( str, *next_parent, "]", ec, folder, included_files, root, macros, level );
 				else if ( str_begins_with( t, '@' ) )
 				{
 					// assign previous value
@@ -149,14 +158,14 @@ namespace xo
 			macros.pop_back();
 	}
 
-	prop_node parse_zml( char_stream& str, error_code* ec, const path& folder, vector<path>* included_files = nullptr )
+	prop_node parse_zml( char_stream& str, error_code* ec, const path& folder, vector<path>* included_files = nullptr, int level = 0 )
 	{
 		str.set_operators( { "=", ": ", "{", "}", "[", "]", "#", "<<", ">>", "//", "/*", "*/" } );
 		str.set_delimiter_chars( " \n\r\t\v" );
 		str.set_quotation_chars( "\"'" );
 
 		prop_node root, macros;
-		read_zml_layer( str, root, "", ec, folder, included_files, root, macros );
+		read_zml_layer( str, root, "", ec, folder, included_files, root, macros, level );
 		return root;
 	}
 
@@ -292,10 +301,15 @@ namespace xo
 		return str;
 	}
 
-	XO_API prop_node load_zml( const path& filename, error_code* ec, path parent_folder, vector<path>* included_files )
+	prop_node load_zml_include( const path& filename, error_code* ec, vector<path>* included_files, int level )
 	{
 		char_stream stream( load_string( filename ) );
-		return parse_zml( stream, ec, filename.parent_path(), included_files );
+		return parse_zml( stream, ec, filename.parent_path(), included_files, level );
+	}
+
+	XO_API prop_node load_zml( const path& filename, error_code* ec, path parent_folder, vector<path>* included_files )
+	{
+		return load_zml_include( filename, ec, included_files, 0 );
 	}
 
 	XO_API void save_zml( const prop_node& pn, const path& filename, error_code* ec )
-- 
2.43.0


From e674fd1ed64778bf26f5b92b16557620572ff364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 16/72] fix: load_zml and zml includes threw instead of setting
 the error_code when a file can't be opened

---
 xo/serialization/prop_node_serializer_zml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 548065e..a5a3e46 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -303,7 +303,7 @@ namespace xo
 
 	prop_node load_zml_include( const path& filename, error_code* ec, vector<path>* included_files, int level )
 	{
-		char_stream stream( load_string( filename ) );
+		char_stream stream( load_string( filename, ec ) );
 		return parse_zml( stream, ec, filename.parent_path(), included_files, level );
 	}
 
-- 
2.43.0


From 7642bd083d750ad4e4b778b56183ed5b28a98059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 17/72] fix: use after free when reading nested zml macros

---
 xo/serialization/prop_node_serializer_zml.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index a5a3e46..51f6ec3 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -77,6 +77,8 @@ namespace xo
 			else
 			{
 				prop_node* next_parent = nullptr;
+				prop_node macro_pn; // kept outside macros, because that can grow while reading its children
+				string macro_label;
 
 				// check if we're reading an array or if this is a label
 				if ( close != "]" )
@@ -85,7 +87,7 @@ namespace xo
 					{
 						// t is a label
 						if ( t[0] == '$' )
-							next_parent = &macros.add_child( t ); // add macro
+							macro_label = t, next_parent = &macro_pn; // add macro after reading
 						else if ( !isgraph( t[0] ) )
 							return zml_error( str, ec, "Invalid label " + t );
 						else
@@ -150,6 +152,9 @@ namespace xo
 					// assign value
 					next_parent->set_value( std::move( t ) );
 				}
+
+				if ( !macro_label.empty() )
+					macros.add_child( macro_label, std::move( macro_pn ) );
 			}
 		}
 
-- 
2.43.0


From 4ed637d6cdd9be1d0cc69bacbecc68644d36ad1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 18/72] fix: file_exists and find_file accepted directories

---
 xo/filesystem/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/filesystem/filesystem.cpp b/xo/filesystem/filesystem.cpp
index 2393e5a..4a09bd4 100644
--- a/xo/filesystem/filesystem.cpp
+++ b/xo/filesystem/filesystem.cpp
@@ -143,7 +143,7 @@ namespace xo
 	bool file_exists( const path& file )
 	{
 		std::ifstream ifs( file.str() );
-		return ifs.good();
+		return ifs.good() && !directory_exists( file ); // a directory can also be opened
 	}
 
 	bool directory_exists( const path& folder )
-- 
2.43.0


From a50cf4dcf30c09d4d29700d038ac1aa85cf17ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 19/72] fix: settings were overwritten with defaults when the
 file could not be opened

---
 xo/system/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/system/settings.cpp b/xo/system/settings.cpp
index aee4e96..4b8330a 100644
--- a/xo/system/settings.cpp
+++ b/xo/system/settings.cpp
@@ -106,7 +106,7 @@ namespace xo
 
 		if ( !data_file_.empty() )
 		{
-			if ( file_exists( data_file_ ) )
+			if ( exists( data_file_ ) ) // a file that cannot be opened now must not be replaced by default settings
 			{
 				prop_node pn = load_file( data_file_ );
 				for ( auto& c : pn )
-- 
2.43.0


From 79567ebf75741dbea7afbde2b7856224281ea235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:49 +0000
Subject: [PATCH 20/72] fix: settings with a range lost digits of large
 integers and accepted nan

---
 xo/system/settings.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xo/system/settings.cpp b/xo/system/settings.cpp
index 4b8330a..db21c91 100644
--- a/xo/system/settings.cpp
+++ b/xo/system/settings.cpp
@@ -74,8 +74,12 @@ namespace xo
 				{
 					log::warning( "Invalid value for ", id, ": ", dvalue, ", restricting to range ", *range );
 					range->clamp( dvalue );
+					if ( !range->is_within( dvalue ) )
+						return false; // not a number
 				}
-				data_.set_query( id, dvalue );
+				if ( type == "int" )
+					data_.set_query( id, static_cast<long long>( dvalue ) ); // keeps all digits
+				else data_.set_query( id, dvalue );
 				return true;
 			}
 
-- 
2.43.0


From b8b6f445f5d6a560ebefba052807e4ad205f719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:38 +0000
Subject: [PATCH 21/72] fix: pausing a paused timer and resuming a running
 timer

---
 xo/time/timer.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xo/time/timer.cpp b/xo/time/timer.cpp
index c01e684..f9f62da 100644
--- a/xo/time/timer.cpp
+++ b/xo/time/timer.cpp
@@ -90,7 +90,7 @@ namespace xo
 	{
 		auto prev_epoch = epoch_;
 		epoch_ = get_tick_count();
-		return get_time_from_ticks( epoch_ - prev_epoch );
+		return get_time_from_ticks( prev_epoch > 0 ? epoch_ - prev_epoch : -prev_epoch );
 	}
 
 	void timer::set( time t )
@@ -103,18 +103,20 @@ namespace xo
 
 	long long timer::tick_count() const
 	{
-		return get_tick_count() - epoch_;
+		return is_running() ? get_tick_count() - epoch_ : -epoch_;
 	}
 
 	time timer::pause()
 	{
 		// store current time in epoch
-		epoch_ = -( get_tick_count() - epoch_ );
+		if ( is_running() )
+			epoch_ = -( get_tick_count() - epoch_ );
 		return get_time_from_ticks( -epoch_ );
 	}
 
 	void timer::resume()
 	{
-		epoch_ = get_tick_count() + epoch_;
+		if ( is_paused() )
+			epoch_ = get_tick_count() + epoch_;
 	}
 }
-- 
2.43.0


From f9c5254ce040b0467ab158dc48a893ed41fb77b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 22/72] fix: timers were affected by changes of the system time

---
 xo/time/timer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xo/time/timer.cpp b/xo/time/timer.cpp
index f9f62da..9cf018e 100644
--- a/xo/time/timer.cpp
+++ b/xo/time/timer.cpp
@@ -59,20 +59,23 @@ namespace xo
 		return t.nanoseconds() * g_time_from_ticks.second / g_time_from_ticks.first; // #todo check if this won't overflow
 	}
 #else
+	// steady_clock may start at zero, but a running timer must have a positive epoch, also after timer::set()
+	constexpr long long g_tick_offset = 1LL << 61;
+
 	long long get_tick_count()
 	{
-		return std::chrono::high_resolution_clock::now().time_since_epoch().count();
+		return g_tick_offset + std::chrono::steady_clock::now().time_since_epoch().count();
 	}
 
 	time get_time_from_ticks( long long ticks )
 	{
-		auto ticks_duration = std::chrono::high_resolution_clock::duration( ticks );
+		auto ticks_duration = std::chrono::steady_clock::duration( ticks );
 		return time( std::chrono::duration_cast<std::chrono::nanoseconds>( ticks_duration ).count() );
 	}
 	long long get_ticks_from_time( time t )
 	{
 		auto nano_duration = std::chrono::nanoseconds( t.nanoseconds() );
-		return std::chrono::duration_cast<std::chrono::high_resolution_clock::duration>( nano_duration ).count();
+		return std::chrono::duration_cast<std::chrono::steady_clock::duration>( nano_duration ).count();
 	}
 #endif
 
-- 
2.43.0


From b55864494e8ab5cd2bccfd020c632fce298d2ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:41 +0000
Subject: [PATCH 23/72] fix: data race on to_str precision

---
 xo/string/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index 4691384..970b8a5 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -24,7 +24,7 @@
 
 namespace xo
 {
-	int to_str_precision_value = 4;
+	thread_local int to_str_precision_value = 4;
 
 	string left_str( const string& str, int n )
 	{
-- 
2.43.0


From efe60b7ba7cee5cd7ef5a09827e8eb449e278026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 24/72] fix: circular_deque wrote outside its buffer when
 growing or reserving after pop_front

---
 xo/container/circular_deque.h | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/xo/container/circular_deque.h b/xo/container/circular_deque.h
index ea89fb9..7fc34d7 100644
--- a/xo/container/circular_deque.h
+++ b/xo/container/circular_deque.h
@@ -17,12 +17,22 @@ namespace xo
 		~circular_deque() {}
 
 		void push_back( const T& value ) {
-			if ( ++size_ > capacity() ) buffer_.insert( buffer_.begin() + ( front_ + size_ - 1 ), value );
-			else back() = value;
+			if ( full() ) {
+				// the last element is just before the first one, unless the first one is at the start of the buffer
+				buffer_.insert( front_ > 0 ? buffer_.begin() + front_ : buffer_.end(), value );
+				if ( front_ > 0 ) ++front_;
+			}
+			else buffer_[( front_ + size_ ) % capacity()] = value;
+			++size_;
 		}
 		void push_front( const T& value ) {
-			if ( ++size_ > capacity() ) buffer_.insert( buffer_.begin() + front_, value );
-			else { front_ = ( front_ + capacity() - 1 ) % capacity(); front() = value; }
+			if ( full() ) buffer_.insert( buffer_.begin() + front_, value );
+			else {
+				auto new_front = ( front_ + capacity() - 1 ) % capacity();
+				buffer_[new_front] = value;
+				front_ = new_front;
+			}
+			++size_;
 		}
 
 		T& operator[]( index_t idx ) { return buffer_[( front_ + idx ) % buffer_.size()]; }
@@ -32,7 +42,7 @@ namespace xo
 		void pop_front() { xo_assert( size_ > 0 ); front_ = ( front_ + 1 ) % capacity(); --size_; }
 
 		T& back() { xo_assert( size_ > 0 ); return buffer_[( front_ + size_ - 1 ) % capacity()]; }
-		const T& back() const { xo_assert( size_ > 0 ); return buffer_[( front_ + size_ ) % capacity()]; }
+		const T& back() const { xo_assert( size_ > 0 ); return buffer_[( front_ + size_ - 1 ) % capacity()]; }
 
 		T& front() { xo_assert( size_ > 0 ); return buffer_[front_]; }
 		const T& front() const { xo_assert( size_ > 0 ); return buffer_[front_]; }
@@ -43,7 +53,14 @@ namespace xo
 		bool full() const { return size() == capacity(); }
 		void clear() { front_ = size_ = 0; }
 
-		void reserve( size_t s ) { buffer_.resize( s ); }
+		void reserve( size_t s ) {
+			if ( s > capacity() ) {
+				buffer_type new_buffer( s );
+				for ( size_t i = 0; i < size_; ++i ) new_buffer[i] = ( *this )[i];
+				buffer_ = std::move( new_buffer );
+				front_ = 0;
+			}
+		}
 		size_t capacity() const { return buffer_.size(); }
 
 		template< typename IT > struct iterator_impl
@@ -55,7 +72,7 @@ namespace xo
 			using reference = IT&;
 			iterator_impl( size_t index, const buffer_type& buffer ) : index_( index ), buffer_( buffer ) {}
 			iterator_impl< IT >& operator++() { ++index_; return *this; }
-			iterator_impl< IT >& operator++( int ) { auto ret = *this; ++index_; return ret; }
+			iterator_impl< IT > operator++( int ) { auto ret = *this; ++index_; return ret; }
 			iterator_impl< IT > operator+( int v ) const { return iterator_impl< IT >( index_ + v, buffer_ ); }
 			iterator_impl< IT > operator-( int v ) const { return iterator_impl< IT >( index_ - v, buffer_ ); }
 			auto operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
-- 
2.43.0


From d801dfcba50dcaf95c65a1134c707cd2946d3eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 25/72] fix: size of a dynarray that was moved from

---
 xo/container/dynarray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/container/dynarray.h b/xo/container/dynarray.h
index f20249e..80e6dcd 100644
--- a/xo/container/dynarray.h
+++ b/xo/container/dynarray.h
@@ -18,9 +18,9 @@ namespace xo
 		dynarray() : data_( nullptr ), end_( nullptr ) {}
 		dynarray( size_t n, const T& v = T() ) : data_( new T[n] ), end_( data_.get() + n ) { assign( v ); }
 		dynarray( const dynarray& o ) : data_( new T[o.size()] ), end_( data_.get() + o.size() ) { xo::copy( o.begin(), o.end(), begin() ); }
-		dynarray( dynarray&& o ) noexcept : data_( std::move( o.data_ ) ), end_( o.end_ ) {}
+		dynarray( dynarray&& o ) noexcept : data_( std::move( o.data_ ) ), end_( o.end_ ) { o.end_ = nullptr; }
 		dynarray<T>& operator=( const dynarray& o ) { data_ = u_ptr< T[] >( new T[o.size()] ); end_ = data_.get() + o.size(); xo::copy( o.begin(), o.end(), begin() ); return *this; }
-		dynarray<T>& operator=( dynarray&& o ) noexcept { data_ = std::move( o.data_ ); end_ = o.end_; return *this; }
+		dynarray<T>& operator=( dynarray&& o ) noexcept { auto e = o.end_; data_ = std::move( o.data_ ); o.end_ = o.data_.get(); end_ = e; return *this; }
 		~dynarray() {}
 
 		T& operator[]( size_t i ) { return data_[i]; }
-- 
2.43.0


From 60def0b94d787f9b5c3c961bf9a6bbd624b264a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:23 +0000
Subject: [PATCH 26/72] fix: table::resize wrote outside the table when adding
 rows

---
 xo/container/table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/table.h b/xo/container/table.h
index 0c00ff9..43a31d4 100644
--- a/xo/container/table.h
+++ b/xo/container/table.h
@@ -48,7 +48,7 @@ namespace xo
 			xo_error_if( rows < row_size() || cols < column_size(), "tables cannot be shrinked" );
 
 			// reorganize existing data
-			data.resize( row_size() * cols );
+			data.resize( rows * cols );
 			for ( index_t ri = rows; ri-- > 0; )
 				for ( index_t ci = cols; ci-- > 0; )
 					data[cols * ri + ci] = ( ri < row_size() && ci < column_size() ) ? data[column_size() * ri + ci] : default_value;
-- 
2.43.0


From 3e8d070d9c7a4a0fd8b73a1eb7391b3a7e7b971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 27/72] fix: missing return in table::operator()

---
 xo/container/table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/table.h b/xo/container/table.h
index 43a31d4..5f2a7b1 100644
--- a/xo/container/table.h
+++ b/xo/container/table.h
@@ -63,7 +63,7 @@ namespace xo
 		const T& operator()( index_t row, index_t col ) const { xo_assert( row < row_size() && col < column_size() ); return data[row * column_size() + col]; }
 		T& operator()( index_t row, index_t col ) { xo_assert( row < row_size() && col < column_size() ); return data[row * column_size() + col]; }
 
-		const T& operator()( const L& row, const L& col ) const { operator()( find_row( row ), find_column( col ) ); }
+		const T& operator()( const L& row, const L& col ) const { return operator()( find_row( row ), find_column( col ) ); }
 		T& operator()( const L& row, const L& col ) { return operator()( get_or_add_row( row ), get_or_add_column( col ) ); }
 
 		const T& operator()( index_t row, const L& col ) const { return operator()( row, find_column( col ) ); }
-- 
2.43.0


From f8dacbd8413e004aaf7aab230817d2af2d3555f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 28/72] fix: indexed_set was left with a value that cannot be
 found after a failed insertion

---
 xo/container/indexed_set.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xo/container/indexed_set.h b/xo/container/indexed_set.h
index 61ea1cd..5dbf190 100644
--- a/xo/container/indexed_set.h
+++ b/xo/container/indexed_set.h
@@ -26,11 +26,13 @@ namespace xo
 		I get_or_add( const T& value ) {
 			auto it = indices_.find( value );
 			if ( it == indices_.end() ) { // add new
-				values_.push_back( value );
-				auto index = values_.size() - 1;
+				auto index = values_.size();
 				// check if the index is valid (must be SMALLER than max to avoid sentinel)
 				xo_error_if( index >= size_t( constants<I>::max() ), "index_set overflow" );
-				return indices_[value] = static_cast<I>( index );
+				values_.push_back( value );
+				try { indices_[value] = static_cast<I>( index ); }
+				catch ( ... ) { values_.pop_back(); throw; } // keep values and indices the same
+				return static_cast<I>( index );
 			}
 			else return it->second; // get existing
 		}
-- 
2.43.0


From 1b0e8a5e365e2a47f8ed21199524291ad81c028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 29/72] fix: label_vector was left with a label that cannot be
 found after a failed insertion

---
 xo/container/label_vector.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xo/container/label_vector.h b/xo/container/label_vector.h
index 118dbbd..15f241c 100644
--- a/xo/container/label_vector.h
+++ b/xo/container/label_vector.h
@@ -18,7 +18,9 @@ namespace xo
 		index_t add( const L& label ) {
 			xo_assert( find( label ) == no_index );
 			labels_.push_back( label );
-			return label_indices_[label] = labels_.size() - 1;
+			try { label_indices_[label] = labels_.size() - 1; }
+			catch ( ... ) { labels_.pop_back(); throw; } // keep labels and indices the same
+			return labels_.size() - 1;
 		}
 
 		index_t find( const L& label ) const {
@@ -51,8 +53,9 @@ namespace xo
 
 		index_t set( index_t idx, const L& label ) {
 			xo_assert( idx < size() && find( label ) == no_index );
-			labels_[idx] = label;
+			L new_label = label;
 			label_indices_[label] = idx;
+			labels_[idx] = std::move( new_label );
 			return idx;
 		}
 
-- 
2.43.0


From a104d4d233ae4a62bf188398699cf2544f8cf204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:37 +0000
Subject: [PATCH 30/72] fix: table and storage were left with labels and data
 of different size after a failed allocation

---
 xo/container/storage.h | 1 +
 xo/container/table.h   | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/xo/container/storage.h b/xo/container/storage.h
index 8402002..a2db1de 100644
--- a/xo/container/storage.h
+++ b/xo/container/storage.h
@@ -126,6 +126,7 @@ namespace xo
 		void resize( size_t nframes, size_t nchannels, T value = T() ) {
 			xo_error_if( nframes < frame_size() || nchannels < channel_size(), "Cannot shrink storage" );
 			if ( nchannels > channel_size() ) {
+				labels_.reserve( nchannels ); // nothing can fail once the data is changed
 				if ( frame_size() > 1 ) {
 					// reorganize existing data
 					container_type new_data( nchannels * nframes, value );
diff --git a/xo/container/table.h b/xo/container/table.h
index 5f2a7b1..b3aa578 100644
--- a/xo/container/table.h
+++ b/xo/container/table.h
@@ -21,8 +21,9 @@ namespace xo
 		~table() {}
 
 		index_t add_row( const L& label, const T& default_value = T() ) {
-			row_labels.add( label );
-			data.resize( row_size() * column_size(), default_value );
+			data.resize( ( row_size() + 1 ) * column_size(), default_value );
+			try { row_labels.add( label ); }
+			catch ( ... ) { data.resize( row_size() * column_size() ); throw; } // keep data and labels the same size
 			return row_size() - 1;
 		}
 
@@ -47,6 +48,9 @@ namespace xo
 		void resize( size_t rows, size_t cols, const T& default_value = T() ) {
 			xo_error_if( rows < row_size() || cols < column_size(), "tables cannot be shrinked" );
 
+			col_labels.reserve( cols ); // nothing can fail once the data is changed
+			row_labels.reserve( rows );
+
 			// reorganize existing data
 			data.resize( rows * cols );
 			for ( index_t ri = rows; ri-- > 0; )
-- 
2.43.0


From 6ce37a3861e7050930d6412356291b4b726a0c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:04 +0000
Subject: [PATCH 31/72] fix: reading a vector dropped the last element when the
 file does not end with whitespace

---
 xo/serialization/container_io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/serialization/container_io.h b/xo/serialization/container_io.h
index 40b02c2..62ac4cd 100644
--- a/xo/serialization/container_io.h
+++ b/xo/serialization/container_io.h
@@ -17,7 +17,7 @@ namespace xo
 		while ( is.good() ) {
 			T element;
 			is >> element;
-			if ( is.good() )
+			if ( !is.fail() ) // the last element may be at the very end of the stream
 				v.emplace_back( element );
 		}
 		return is;
-- 
2.43.0


From 9f78173f6ce651cf8bd1962b24066344a324e40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:04 +0000
Subject: [PATCH 32/72] fix: zml labels and values that end with a colon were
 read back as something else

---
 xo/serialization/prop_node_serializer_zml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 51f6ec3..f83a156 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -181,7 +181,7 @@ namespace xo
 	}
 
 	// characters that cannot be part of an unquoted label or value
-	const char* zml_special_chars = "{}[]#<>\\/='";
+	const char* zml_special_chars = "{}[]#<>\\/=:'";
 
 	void write_zml_kvp( std::ostream& str, const string& label, const prop_node& pn, const char* equals_str, bool inside_array )
 	{
-- 
2.43.0


From 044cd2ec83ebd33934e3df038465474a177ec902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:06 +0000
Subject: [PATCH 33/72] fix: writing an empty document as concise zml threw an
 exception

---
 xo/serialization/prop_node_serializer_zml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index f83a156..0bfbdd8 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -302,7 +302,8 @@ namespace xo
 	std::ostream& prop_node_serializer_zml_concise::write_stream( std::ostream& str ) const
 	{
 		xo_assert( write_pn_ );
-		write_zml_node_concise( str, "", *write_pn_, 0, false );
+		if ( !write_pn_->empty() )
+			write_zml_node_concise( str, "", *write_pn_, 0, false );
 		return str;
 	}
 
-- 
2.43.0


From 5485324ad651d091d86b126e0d59333ee5622e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:51 +0000
Subject: [PATCH 34/72] fix: running out of memory while saving zml wrote a
 damaged file without an error

---
 xo/serialization/prop_node_serializer_zml.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 0bfbdd8..21f6d53 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -236,6 +236,7 @@ namespace xo
 			if ( level != 0 && pn.count_layers() <= 2 && pn.count_children() <= 5 )
 			{
 				std::ostringstream oneliner;
+				oneliner.exceptions( std::ios::badbit ); // don't write a damaged line when memory runs out
 				write_zml_node_one_line( oneliner, label, pn, is_array );
 				if ( level + label.size() + 1 + oneliner.str().size() <= max_oneliner_length )
 				{
-- 
2.43.0


From 50655d573a8d6f1134dbb23ac35212ddc4346f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:53 +0000
Subject: [PATCH 35/72] fix: an empty quoted string followed by an operator was
 read as that operator

---
 xo/serialization/char_stream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xo/serialization/char_stream.cpp b/xo/serialization/char_stream.cpp
index e153bc6..c59e1c7 100644
--- a/xo/serialization/char_stream.cpp
+++ b/xo/serialization/char_stream.cpp
@@ -62,6 +62,7 @@ namespace xo
 	{
 		skip_delimiters();
 		string s;
+		bool quoted = false; // an empty quoted string is a token as well
 		cur_pos_end = const_cast<char*>( cur_pos );
 		while ( good() )
 		{
@@ -77,6 +78,7 @@ namespace xo
 				// this is a part between quotes and must be decoded
 				cur_pos = cur_pos_end;
 				char quote_char = getc();
+				quoted = true;
 				while ( good() )
 				{
 					char c = peekc();
@@ -97,7 +99,7 @@ namespace xo
 			}
 			else if ( auto opstr = check_operator( cur_pos_end ) ) // check for operator
 			{
-				if ( cur_pos == cur_pos_end && s.empty() )
+				if ( cur_pos == cur_pos_end && s.empty() && !quoted )
 				{
 					s = *opstr; // token is an operator
 					cur_pos += opstr->length();
-- 
2.43.0


From c1147bfb3e80a900bd37213fe761cebb433aeb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:49 +0000
Subject: [PATCH 36/72] fix: reading or loading a table ignored read errors,
 incomplete rows and missing files

---
 xo/container/table.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xo/container/table.h b/xo/container/table.h
index b3aa578..a8379a1 100644
--- a/xo/container/table.h
+++ b/xo/container/table.h
@@ -118,14 +118,17 @@ namespace xo
 				t.add_row( row_label );
 				for ( index_t i = 0; i < t.column_size(); ++i )
 					str >> t.back_row( i );
+				xo_error_if( str.fail(), "Error reading table, row " + row_label + " is incomplete or invalid" );
 			}
 		}
+		xo_error_if( str.bad(), "Error reading table" );
 		return t;
 	}
 
 	template< typename T, typename S = string >
 	table<T, S> load_table( const path& filename, bool first_row_has_header = true ) {
 		auto str = std::ifstream( filename.str() );
+		xo_error_if( !str.good(), "Could not open " + filename.str() );
 		return read_table<T, S>( str, first_row_has_header );
 	}
 }
-- 
2.43.0


From cacd4a35d86c3b3a3a2704af5304fe0ca257aa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:00 +0000
Subject: [PATCH 37/72] fix: label_vector could not find the labels it was
 constructed with

---
 xo/container/label_vector.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xo/container/label_vector.h b/xo/container/label_vector.h
index 15f241c..bbe811d 100644
--- a/xo/container/label_vector.h
+++ b/xo/container/label_vector.h
@@ -11,8 +11,8 @@ namespace xo
 	struct label_vector
 	{
 		label_vector( size_t channels = 0 ) : labels_( channels ) {}
-		label_vector( std::initializer_list< L > labels ) : labels_( labels ) {}
-		label_vector( const std::vector< L >& labels ) : labels_( labels ) {}
+		label_vector( std::initializer_list< L > labels ) : labels_( labels ) { init_indices(); }
+		label_vector( const std::vector< L >& labels ) : labels_( labels ) { init_indices(); }
 		~label_vector() {}
 
 		index_t add( const L& label ) {
@@ -63,6 +63,7 @@ namespace xo
 		typename std::vector< L >::const_iterator end() const { return labels_.end(); }
 
 	private:
+		void init_indices() { for ( index_t i = 0; i < labels_.size(); ++i ) label_indices_.emplace( labels_[i], i ); }
 		std::vector< L > labels_;
 		std::unordered_map< L, index_t > label_indices_;
 	};
-- 
2.43.0


From cbbccb67e6232787d754d875f81eb28eedd38b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:06 +0000
Subject: [PATCH 38/72] fix: a label that was replaced could still be found

---
 xo/container/label_vector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xo/container/label_vector.h b/xo/container/label_vector.h
index bbe811d..9d63011 100644
--- a/xo/container/label_vector.h
+++ b/xo/container/label_vector.h
@@ -55,6 +55,8 @@ namespace xo
 			xo_assert( idx < size() && find( label ) == no_index );
 			L new_label = label;
 			label_indices_[label] = idx;
+			if ( auto it = label_indices_.find( labels_[idx] ); it != label_indices_.end() && it->second == idx )
+				label_indices_.erase( it ); // previous label
 			labels_[idx] = std::move( new_label );
 			return idx;
 		}
-- 
2.43.0


From b6f1def4d854c9977e72310a7404e7062bf81767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:08 +0000
Subject: [PATCH 39/72] fix: write_function ignored write errors

---
 xo/system/debug_storage.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xo/system/debug_storage.h b/xo/system/debug_storage.h
index 418d5ea..43beb00 100644
--- a/xo/system/debug_storage.h
+++ b/xo/system/debug_storage.h
@@ -24,5 +24,7 @@ namespace xo
 			T y = func( x );
 			of << x << '\t' << y << std::endl;
 		}
+		of.close();
+		xo_error_if( of.fail(), "Could not write " + file.str() );
 	}
 }
-- 
2.43.0


From 36782bdad6a715e7f892d20b29911955e615c865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:01 +0000
Subject: [PATCH 40/72] fix: find_frame_index never returned the first frame
 for values closer to it than to the second

---
 xo/container/storage_tools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/storage_tools.h b/xo/container/storage_tools.h
index 5b483fc..b2803aa 100644
--- a/xo/container/storage_tools.h
+++ b/xo/container/storage_tools.h
@@ -43,7 +43,7 @@ namespace xo
 		first = xo::min( first, sto.frame_size() - 1 );
 
 		// check if value is closer to lower_bound frame or to prev
-		if ( first > 1 && ( val - sto( first - 1, ch ) < sto( first, ch ) - val ) )
+		if ( first > 0 && ( val - sto( first - 1, ch ) < sto( first, ch ) - val ) )
 			return first - 1;
 		else return first;
 	}
-- 
2.43.0


From 0d35f8d72cdcc5b30ee6bc59ab148958b7b8c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:02 +0000
Subject: [PATCH 41/72] fix: stopwatch had more times than names after a failed
 allocation

---
 xo/time/stopwatch.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xo/time/stopwatch.h b/xo/time/stopwatch.h
index 7f1c73d..d8bb4dc 100644
--- a/xo/time/stopwatch.h
+++ b/xo/time/stopwatch.h
@@ -18,9 +18,10 @@ namespace xo
 		/// add a split with a specific tag. After a restart, splits must be performed in the same order.
 		void split( const char* name ) {
 			if ( current_split_ >= split_times_.size() ) {
-				split_times_.emplace_back( timer_.restart() );
-				split_names_.emplace_back( name );
-				++current_split_;
+				split_times_.emplace_back();
+				try { split_names_.emplace_back( name ); }
+				catch ( ... ) { split_times_.pop_back(); throw; } // keep names and times the same size
+				split_times_[current_split_++] = timer_.restart();
 			}
 			else split_times_[current_split_++] += timer_.restart();
 		}
-- 
2.43.0


From 899d306c08f2c33899895063a29c6837cfc88deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:03 +0000
Subject: [PATCH 42/72] fix: stopwatch report left a different to_str precision
 after an exception

---
 xo/time/stopwatch.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xo/time/stopwatch.cpp b/xo/time/stopwatch.cpp
index d374c46..a1a7a86 100644
--- a/xo/time/stopwatch.cpp
+++ b/xo/time/stopwatch.cpp
@@ -7,7 +7,11 @@ namespace xo
 {
 	prop_node stopwatch::get_report( int decimals )
 	{
-		auto old_precision = set_to_str_precision( decimals );
+		struct precision_scope { // also restores the precision in case of an exception
+			precision_scope( int p ) : old_( set_to_str_precision( p ) ) {}
+			~precision_scope() { set_to_str_precision( old_ ); }
+			int old_;
+		} precision( decimals );
 		prop_node pn;
 		time total;
 		for ( index_t idx = 0; idx < size(); ++idx ) {
@@ -16,8 +20,6 @@ namespace xo
 		}
 		pn["TOTAL"] = total;
 
-		set_to_str_precision( old_precision );
-
 		return pn;
 	}
 }
-- 
2.43.0


From 8f6d52897f0acf78525d45cc0976afcfc52b1d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:03 +0000
Subject: [PATCH 43/72] fix: quoted zml tokens are never comments, operators or
 the end of the file

---
 xo/serialization/char_stream.cpp              |  6 ++---
 xo/serialization/char_stream.h                |  2 ++
 xo/serialization/prop_node_serializer_zml.cpp | 25 +++++++++++--------
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/xo/serialization/char_stream.cpp b/xo/serialization/char_stream.cpp
index c59e1c7..ae5fe2d 100644
--- a/xo/serialization/char_stream.cpp
+++ b/xo/serialization/char_stream.cpp
@@ -62,7 +62,7 @@ namespace xo
 	{
 		skip_delimiters();
 		string s;
-		bool quoted = false; // an empty quoted string is a token as well
+		token_quoted_ = false; // an empty quoted string is a token as well
 		cur_pos_end = const_cast<char*>( cur_pos );
 		while ( good() )
 		{
@@ -78,7 +78,7 @@ namespace xo
 				// this is a part between quotes and must be decoded
 				cur_pos = cur_pos_end;
 				char quote_char = getc();
-				quoted = true;
+				token_quoted_ = true;
 				while ( good() )
 				{
 					char c = peekc();
@@ -99,7 +99,7 @@ namespace xo
 			}
 			else if ( auto opstr = check_operator( cur_pos_end ) ) // check for operator
 			{
-				if ( cur_pos == cur_pos_end && s.empty() && !quoted )
+				if ( cur_pos == cur_pos_end && s.empty() && !token_quoted_ )
 				{
 					s = *opstr; // token is an operator
 					cur_pos += opstr->length();
diff --git a/xo/serialization/char_stream.h b/xo/serialization/char_stream.h
index 2763bd4..26ef989 100644
--- a/xo/serialization/char_stream.h
+++ b/xo/serialization/char_stream.h
@@ -49,6 +49,7 @@ namespace xo
 
 		string get_line();
 		string get_token();
+		bool token_quoted() const { return token_quoted_; } // true if the last token has a part between quotes
 
 		char getc() { if ( !test_eof() ) return *cur_pos++; else return '\0'; }
 		char peekc() { if ( !test_eof() ) return *cur_pos; else return '\0'; }
@@ -81,6 +82,7 @@ namespace xo
 		std::vector< string > operators_;
 		string delimiters_;
 		string quotations_;
+		bool token_quoted_ = false;
 
 		enum buffer_flag { fail_flag, eof_flag };
 		flag_set< buffer_flag > buffer_flags;
diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 21f6d53..1e0ae3e 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -30,7 +30,9 @@ namespace xo
 		while ( true )
 		{
 			string t = str.get_token();
-			if ( t == "#" || t == "//" ) {
+			if ( str.token_quoted() )
+				return t;
+			else if ( t == "#" || t == "//" ) {
 				// single line comment
 				str.get_line(); 
 			}
@@ -53,16 +55,19 @@ namespace xo
 		// keep track of the number of macros so we can delete them at the end of this scope
 		auto macro_count = macros.size();
 
+		// quoted tokens are always labels or values
+		auto is_token = [&]( const string& t, const string& s ) { return t == s && !str.token_quoted(); };
+
 		// iterate over all items in this scope
-		for ( string t = get_zml_token( str, ec ); t != close; t = get_zml_token( str, ec ) )
+		for ( string t = get_zml_token( str, ec ); !is_token( t, close ); t = get_zml_token( str, ec ) )
 		{
-			if ( t.empty() ) // check if the stream has ended while expecting a close tag
+			if ( is_token( t, "" ) ) // check if the stream has ended while expecting a close tag
 				return zml_error( str, ec, "Unexpected end of stream" );
 
-			if ( t == "<<" ) // check directive statement
+			if ( is_token( t, "<<" ) ) // check directive statement
 			{
 				auto filename = path( get_zml_token( str, ec ) );
-				if ( get_zml_token( str, ec ) != ">>" )
+				if ( !is_token( get_zml_token( str, ec ), ">>" ) )
 					zml_error( str, ec, "'<<' has no find matching '>>'" );
 				if ( filename.is_relative() )
 					filename = folder / filename;
@@ -83,7 +88,7 @@ namespace xo
 				// check if we're reading an array or if this is a label
 				if ( close != "]" )
 				{
-					if ( t != "{" && t != "[" )
+					if ( !is_token( t, "{" ) && !is_token( t, "[" ) )
 					{
 						// t is a label
 						if ( t[0] == '$' )
@@ -95,9 +100,9 @@ namespace xo
 
 						// read = or :
 						t = get_zml_token( str, ec );
-						if ( t == "=" || t == ": " )
+						if ( is_token( t, "=" ) || is_token( t, ": " ) )
 							t = get_zml_token( str, ec );
-						else if ( t != "{" && t != "[" )
+						else if ( !is_token( t, "{" ) && !is_token( t, "[" ) )
 							return zml_error( str, ec, "Expected '=', ':', '{' or '['" );
 					}
 					else
@@ -111,9 +116,9 @@ namespace xo
 				else next_parent = &parent.add_child( "" ); // add array child
 
 				// parse value element after
-				if ( t == "{" ) // new group
+				if ( is_token( t, "{" ) ) // new group
 					read_zml_layer( str, *next_parent, "}", ec, folder, included_files, root, macros, level );
-				else if ( t == "[" ) // new array
+				else if ( is_token( t, "[" ) ) // new array
 					read_zml_layer( str, *next_parent, "]", ec, folder, included_files, root, macros, level );
 				else if ( str_begins_with( t, '@' ) )
 				{
-- 
2.43.0


From c55844da0c193888ee4054d566b418fbbb6d9285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:06 +0000
Subject: [PATCH 44/72] fix: quoted zml labels can start with any character

---
 xo/serialization/prop_node_serializer_zml.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 1e0ae3e..78b448e 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -20,6 +20,9 @@ namespace xo
 			replace_str( s, r.first, r.second );
 	}
 
+	// other labels must be quoted
+	bool is_plain_label( const string& s ) { return !s.empty() && s[0] > 32 && s[0] < 127; }
+
 	void zml_error( const char_stream& str, error_code* ec, const string& message )
 	{
 		set_error_or_throw( ec, stringf( "Error parsing line %d: ", str.line_number() ) + message );
@@ -93,7 +96,7 @@ namespace xo
 						// t is a label
 						if ( t[0] == '$' )
 							macro_label = t, next_parent = &macro_pn; // add macro after reading
-						else if ( !isgraph( t[0] ) )
+						else if ( t.empty() || ( !str.token_quoted() && !is_plain_label( t ) ) )
 							return zml_error( str, ec, "Invalid label " + t );
 						else
 							next_parent = &parent.add_child( t ); // add new item
@@ -194,7 +197,7 @@ namespace xo
 		bool show_value = !pn.get_str().empty() || pn.size() == 0;
 		xo_error_if( !show_label && show_value && !inside_array, "Value without label outside array" );
 		if ( show_label )
-			str << try_quoted( label, zml_special_chars );
+			str << ( is_plain_label( label ) ? try_quoted( label, zml_special_chars ) : quoted( label ) );
 		if ( show_label && show_value )
 			str << equals_str;
 		if ( show_value )
-- 
2.43.0


From 1088bc2bfb90318ee2fee76ac0c04ac3aa8cf08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:25 +0000
Subject: [PATCH 45/72] fix: char_stream loses the part of a token before a
 quote

---
 xo/serialization/char_stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xo/serialization/char_stream.cpp b/xo/serialization/char_stream.cpp
index ae5fe2d..db248b7 100644
--- a/xo/serialization/char_stream.cpp
+++ b/xo/serialization/char_stream.cpp
@@ -75,7 +75,8 @@ namespace xo
 			}
 			else if ( strchr( quotations_.c_str(), *cur_pos_end ) ) // check for quote
 			{
-				// this is a part between quotes and must be decoded
+				// this is a part between quotes and must be decoded, after the part before it
+				s += string( cur_pos, size_t( cur_pos_end - cur_pos ) );
 				cur_pos = cur_pos_end;
 				char quote_char = getc();
 				token_quoted_ = true;
-- 
2.43.0


From a5fe460b8b43211dda11e4966031a0c578046104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:51 +0000
Subject: [PATCH 46/72] fix: circular_deque keeps its size when it is moved
 from or a copy fails

---
 xo/container/circular_deque.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xo/container/circular_deque.h b/xo/container/circular_deque.h
index 7fc34d7..1c3aa9f 100644
--- a/xo/container/circular_deque.h
+++ b/xo/container/circular_deque.h
@@ -14,6 +14,14 @@ namespace xo
 		using buffer_type = std::vector< T >;
 
 		circular_deque( size_t init_capacity = 0 ) : front_( 0 ), size_( 0 ), buffer_( init_capacity ) {}
+		circular_deque( const circular_deque& other ) = default;
+		circular_deque( circular_deque&& other ) noexcept : front_( other.front_ ), size_( other.size_ ), buffer_( std::move( other.buffer_ ) ) { other.clear(); }
+		circular_deque& operator=( circular_deque other ) noexcept {
+			front_ = other.front_;
+			size_ = other.size_;
+			buffer_.swap( other.buffer_ );
+			return *this;
+		}
 		~circular_deque() {}
 
 		void push_back( const T& value ) {
-- 
2.43.0


From 6d93b90b5b332931f354e6cfb84fdf11962ca6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:51 +0000
Subject: [PATCH 47/72] fix: circular_buffer::resize keeps its contents when
 memory runs out

---
 xo/container/circular_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/circular_buffer.h b/xo/container/circular_buffer.h
index ede4fc6..07236bb 100644
--- a/xo/container/circular_buffer.h
+++ b/xo/container/circular_buffer.h
@@ -28,9 +28,9 @@ namespace xo
 
 		void resize( size_t frames, size_t channels ) {
 			xo_error_if( in_ofs_ != out_ofs_, "Cannot resize buffer after advance()" );
+			data_.resize( frames * channels );
 			frames_ = frames;
 			channels_ = channels;
-			data_.resize( frames_ * channels_ );
 		}
 		index_t add_channel() { resize( frames_, channels_ + 1 ); return channels_ - 1; }
 		index_t add_frame() { resize( frames_ + 1, channels_ ); return frames_ - 1; }
-- 
2.43.0


From adde53206d31432fe984d59341c7f00e0c273778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:52 +0000
Subject: [PATCH 48/72] fix: dynarray self assignment and resize with one of
 its own elements

---
 xo/container/dynarray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/container/dynarray.h b/xo/container/dynarray.h
index 80e6dcd..64de4b8 100644
--- a/xo/container/dynarray.h
+++ b/xo/container/dynarray.h
@@ -19,7 +19,7 @@ namespace xo
 		dynarray( size_t n, const T& v = T() ) : data_( new T[n] ), end_( data_.get() + n ) { assign( v ); }
 		dynarray( const dynarray& o ) : data_( new T[o.size()] ), end_( data_.get() + o.size() ) { xo::copy( o.begin(), o.end(), begin() ); }
 		dynarray( dynarray&& o ) noexcept : data_( std::move( o.data_ ) ), end_( o.end_ ) { o.end_ = nullptr; }
-		dynarray<T>& operator=( const dynarray& o ) { data_ = u_ptr< T[] >( new T[o.size()] ); end_ = data_.get() + o.size(); xo::copy( o.begin(), o.end(), begin() ); return *this; }
+		dynarray<T>& operator=( const dynarray& o ) { return *this = dynarray( o ); }
 		dynarray<T>& operator=( dynarray&& o ) noexcept { auto e = o.end_; data_ = std::move( o.data_ ); o.end_ = o.data_.get(); end_ = e; return *this; }
 		~dynarray() {}
 
@@ -42,7 +42,7 @@ namespace xo
 
 		void assign( const T& v ) { std::fill( begin(), end(), v ); }
 
-		void resize( size_t n, const T& v = T() ) { data_.reset( new T[n] ); end_ = data_.get() + n; assign( v ); }
+		void resize( size_t n, const T& v = T() ) { *this = dynarray( n, v ); }
 		void clear() { data_.reset(); end_ = data_.get(); }
 
 		T* data() { return data_.get(); }
-- 
2.43.0


From 6b75ce369a124905e7d49fc57627cb557c6a442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:57 +0000
Subject: [PATCH 49/72] fix: flat_map and flat_set drop duplicates from
 initializer lists

---
 xo/container/flat_map.h | 4 +++-
 xo/container/flat_set.h | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/xo/container/flat_map.h b/xo/container/flat_map.h
index 7c8a95e..cf29c95 100644
--- a/xo/container/flat_map.h
+++ b/xo/container/flat_map.h
@@ -129,7 +129,9 @@ namespace xo
 	private:
 		container_t data_;
 		void sort() {
-			std::sort( data_.begin(), data_.end(), [&]( const value_type& a, const value_type& b ) { return a.first < b.first; } );
+			std::stable_sort( data_.begin(), data_.end(), [&]( const value_type& a, const value_type& b ) { return a.first < b.first; } );
+			// keep only the first of each key
+			data_.erase( std::unique( data_.begin(), data_.end(), [&]( const value_type& a, const value_type& b ) { return a.first == b.first; } ), data_.end() );
 		}
 	};
 
diff --git a/xo/container/flat_set.h b/xo/container/flat_set.h
index 370019b..d2bbf39 100644
--- a/xo/container/flat_set.h
+++ b/xo/container/flat_set.h
@@ -106,6 +106,7 @@ namespace xo
 		container_t data_;
 		void sort() {
 			std::sort( data_.begin(), data_.end(), [&]( const key_type& a, const key_type& b ) { return a < b; } );
+			data_.erase( std::unique( data_.begin(), data_.end() ), data_.end() );
 		}
 	};
 
-- 
2.43.0


From 1fdd3f9c995e5ec5af7b3e66c80b5a5720d7876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:02 +0000
Subject: [PATCH 50/72] fix: prop_node can be assigned from its own child

---
 xo/container/prop_node.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xo/container/prop_node.h b/xo/container/prop_node.h
index 2bd7920..fd0ef13 100644
--- a/xo/container/prop_node.h
+++ b/xo/container/prop_node.h
@@ -43,8 +43,14 @@ namespace xo
 		~prop_node() = default;
 
 		/// copy assignment
-		prop_node& operator=( const prop_node& other ) = default;
-		prop_node& operator=( prop_node&& other ) = default;
+		prop_node& operator=( const prop_node& other ) { return operator=( prop_node( other ) ); }
+		prop_node& operator=( prop_node&& other ) {
+			prop_node pn( std::move( other ) ); // other can be one of our children
+			value.swap( pn.value );
+			children.swap( pn.children );
+			accessed_flag = pn.accessed_flag;
+			return *this;
+		}
 		prop_node& set( prop_node&& pn ) { return operator=( std::move( pn ) ); }
 		prop_node& set( const prop_node& pn ) { return operator=( pn ); }
 
-- 
2.43.0


From c3bf448994082aa8b86ec647df8d4287946b6275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:09 +0000
Subject: [PATCH 51/72] fix: prop_node::set and set_query with an own child or
 a failing conversion

---
 xo/container/prop_node.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xo/container/prop_node.h b/xo/container/prop_node.h
index fd0ef13..658792a 100644
--- a/xo/container/prop_node.h
+++ b/xo/container/prop_node.h
@@ -323,7 +323,9 @@ namespace xo
 
 	template< typename T >
 	prop_node& prop_node::set( const key_t& key, const T& v ) {
-		return get_or_add_child( key ).set( v );
+		prop_node pn; // v can be one of our children, which can be moved by adding a child
+		pn.set( v );
+		return get_or_add_child( key ).set( std::move( pn ) );
 	}
 
 	template< typename T >
@@ -406,7 +408,9 @@ namespace xo
 
 	template< typename T >
 	prop_node& prop_node::set_query( const key_t& query, const T& v, const char delim ) {
-		return get_or_add_query( query, delim ).set( v );
+		prop_node pn; // v can be one of our children, which can be moved by adding a child
+		pn.set( v );
+		return get_or_add_query( query, delim ).set( std::move( pn ) );
 	}
 
 	template< typename T >
-- 
2.43.0


From 9ee313e3170a71d50bfa5631a201d92b2695b152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:13 +0000
Subject: [PATCH 52/72] fix: existing labels in table::add_column and
 storage::add_channel, own element as default in table::resize

---
 xo/container/storage.h | 2 ++
 xo/container/table.h   | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/xo/container/storage.h b/xo/container/storage.h
index a2db1de..cb0e137 100644
--- a/xo/container/storage.h
+++ b/xo/container/storage.h
@@ -46,12 +46,14 @@ namespace xo
 
 		/// add a channel and resize buffer if needed
 		index_t add_channel( L label, const T& value = T() ) {
+			xo_assert( try_find_channel( label ) == no_index );
 			resize( frame_size(), channel_size() + 1, value );
 			return labels_.set( channel_size() - 1, label );
 		}
 
 		/// add a channel with data, resize buffer if needed
 		index_t add_channel( L label, const std::vector< T >& data ) {
+			xo_assert( try_find_channel( label ) == no_index );
 			resize( max( frame_size(), std::size( data ) ), channel_size() + 1 );
 			labels_.set( channel_size() - 1, label );
 			auto cidx = channel_size() - 1;
diff --git a/xo/container/table.h b/xo/container/table.h
index a8379a1..caf87b0 100644
--- a/xo/container/table.h
+++ b/xo/container/table.h
@@ -28,6 +28,7 @@ namespace xo
 		}
 
 		index_t add_column( const L& label, const T& default_value = T() ) {
+			xo_assert( find_column( label ) == no_index );
 			resize( row_size(), column_size() + 1, default_value );
 			return col_labels.set( column_size() - 1, label );
 		}
@@ -45,7 +46,7 @@ namespace xo
 			return idx == no_index ? add_column( label, default_value ) : idx;
 		}
 
-		void resize( size_t rows, size_t cols, const T& default_value = T() ) {
+		void resize( size_t rows, size_t cols, T default_value = T() ) { // a copy, because it can be an element of this table
 			xo_error_if( rows < row_size() || cols < column_size(), "tables cannot be shrinked" );
 
 			col_labels.reserve( cols ); // nothing can fail once the data is changed
-- 
2.43.0


From 4f58d0c2f8bfb7278629f9bd61a7178cfb140b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:15 +0000
Subject: [PATCH 53/72] fix: prop_node append and insert keep existing children
 when memory runs out

---
 xo/container/prop_node.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xo/container/prop_node.cpp b/xo/container/prop_node.cpp
index e46fbf5..699da70 100644
--- a/xo/container/prop_node.cpp
+++ b/xo/container/prop_node.cpp
@@ -84,12 +84,14 @@ namespace xo
 
 	prop_node::iterator prop_node::insert( iterator pos, const_iterator first, const_iterator last )
 	{
-		return children.insert( pos, first, last );
+		// copy first, existing children can be lost if copying fails during insertion
+		container_t c( first, last );
+		return children.insert( pos, std::make_move_iterator( c.begin() ), std::make_move_iterator( c.end() ) );
 	}
 
 	prop_node::iterator prop_node::append( const prop_node& other )
 	{
-		return children.insert( children.end(), other.begin(), other.end() );
+		return insert( children.end(), other.begin(), other.end() );
 	}
 
 	prop_node::iterator prop_node::append( prop_node&& other )
-- 
2.43.0


From e544f19ddec0f1d9033a43979e5e5526a0890f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:33 +0000
Subject: [PATCH 54/72] fix: smart_enum stream extraction ignored a value at
 the very end of the stream

---
 xo/utility/smart_enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/utility/smart_enum.h b/xo/utility/smart_enum.h
index de4b92b..73f8ef2 100644
--- a/xo/utility/smart_enum.h
+++ b/xo/utility/smart_enum.h
@@ -31,7 +31,7 @@ namespace smart_enum_detail
 inline std::string to_str( E e ) { return ::smart_enum_detail::to_str( int( e ), VA_STR ); } \
 inline bool from_str( const std::string& str, E& e ) { return ::smart_enum_detail::from_str( str, e, VA_STR ); } \
 inline std::ostream& operator<<( std::ostream& ostr, E e ) { return ostr << to_str( e ); } \
-inline std::istream& operator>>( std::istream& istr, E& e ) { std::string s; istr >> s; if ( istr.good() && !from_str( s, e ) ) istr.setstate( std::ios::failbit ); return istr; }
+inline std::istream& operator>>( std::istream& istr, E& e ) { std::string s; istr >> s; if ( !istr.fail() && !from_str( s, e ) ) istr.setstate( std::ios::failbit ); return istr; }
 
 #define xo_smart_enum( E, ... ) \
 enum E { __VA_ARGS__ }; \
-- 
2.43.0


From 9626052233321bff21842b4f494c6b4ae17f26be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:02 +0000
Subject: [PATCH 55/72] fix: delayers returned zero instead of their initial
 value

---
 xo/numerical/delayer.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/xo/numerical/delayer.h b/xo/numerical/delayer.h
index 2cfbf53..7461f1a 100644
--- a/xo/numerical/delayer.h
+++ b/xo/numerical/delayer.h
@@ -12,9 +12,8 @@ namespace xo
 		delayer( float delay = 1.0f, const T& init_value = T() ) :
 			window_( delay / ( N - 1 ) ),
 			time_( 0 ),
-			idx_( 0 ),
-			data_{ init_value }
-		{ static_assert( N >= 2 ); xo_assert( delay > 0 ); }
+			idx_( 0 )
+		{ static_assert( N >= 2 ); xo_assert( delay > 0 ); data_.fill( init_value ); }
 
 		void add_sample( const T& value, float delta_time ) {
 			time_ += delta_time;
@@ -46,9 +45,8 @@ namespace xo
 			window_( delay / ( N - 0.5f ) ),
 			time_( 0 ),
 			inter_( 0 ),
-			idx_( 0 ),
-			data_{ init_value }
-		{ static_assert( N >= 2 ); xo_assert( delay > 0 ); }
+			idx_( 0 )
+		{ static_assert( N >= 2 ); xo_assert( delay > 0 ); data_.fill( init_value ); }
 
 		void add_sample( const T& value, float delta_time ) {
 			time_ += delta_time;
-- 
2.43.0


From a602068ad00928f710efc16d4aaa7023e2e618cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:31 +0000
Subject: [PATCH 56/72] fix: delayers fell behind when a time step was longer
 than their window

---
 xo/numerical/delayer.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xo/numerical/delayer.h b/xo/numerical/delayer.h
index 7461f1a..d7b9a87 100644
--- a/xo/numerical/delayer.h
+++ b/xo/numerical/delayer.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include "xo/xo_types.h"
 #include "xo/system/assert.h"
@@ -16,8 +17,8 @@ namespace xo
 		{ static_assert( N >= 2 ); xo_assert( delay > 0 ); data_.fill( init_value ); }
 
 		void add_sample( const T& value, float delta_time ) {
-			time_ += delta_time;
-			if ( time_ + 0.5f * delta_time > window_ ) {
+			time_ = std::min( time_ + delta_time, ( N + 1 ) * window_ ); // a longer step fills all of data_
+			while ( time_ + 0.5f * std::min( delta_time, window_ ) > window_ ) {
 				time_ -= window_;
 				++idx_ %= N;
 				data_[idx_] = value;
@@ -54,7 +55,12 @@ namespace xo
 				inter_ += ( window_ - time_ + delta_time ) * value;
 				++idx_ %= N;
 				data_[idx_] = inter_ / window_;
-				time_ -= window_;
+				time_ = std::min( time_ - window_, N * window_ ); // a longer step fills all of data_
+				while ( time_ >= window_ ) {
+					++idx_ %= N;
+					data_[idx_] = value;
+					time_ -= window_;
+				}
 				inter_ = time_ * value;
 			}
 			else inter_ += value * delta_time;
-- 
2.43.0


From 0b206b4906c000bf4f771c154bbd496876bbc8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:33 +0000
Subject: [PATCH 57/72] fix: collection_ic::erase returned no value

---
 xo/container/collection_ic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/collection_ic.h b/xo/container/collection_ic.h
index e21f6ba..b52e0d1 100644
--- a/xo/container/collection_ic.h
+++ b/xo/container/collection_ic.h
@@ -23,7 +23,7 @@ namespace xo
 		template< typename T > const T& operator[]( index_class<T, I> i ) const { return get_vec<T>()[i.idx]; }
 		template< typename T > T& operator[]( index_class<T, I> i ) { return get_vec<T>()[i.idx]; }
 
-		template< typename T > index_class<T, I> erase( index_class<T, I> i ) { auto& v = get_vec<T>(); v.erase( i.iter( v ) ); }
+		template< typename T > index_class<T, I> erase( index_class<T, I> i ) { auto& v = get_vec<T>(); v.erase( i.iter( v ) ); return i; }
 		template< typename T > void pop_back() { get_vec<T>().pop_back(); }
 
 		template< typename T > const std::vector<T>& get_vec() const { return std::get< std::vector<T> >( data_ ); }
-- 
2.43.0


From 3ea4b23962420139feb48a9833053bf140fe14b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:33 +0000
Subject: [PATCH 58/72] fix: stack_string stays consistent when memory runs out

---
 xo/string/stack_string.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xo/string/stack_string.h b/xo/string/stack_string.h
index 3f186da..c0d731b 100644
--- a/xo/string/stack_string.h
+++ b/xo/string/stack_string.h
@@ -12,8 +12,13 @@ namespace xo
 
 		const std::string& str() const { return value_; }
 
-		void set( std::string s ) { value_ = s; sizes_.assign( s.empty() ? 0 : 1, 0 ); }
-		void push_back( const std::string& s ) { sizes_.push_back( value_.size() ); value_ += s; }
+		void set( std::string s ) { sizes_.assign( s.empty() ? 0 : 1, 0 ); value_ = std::move( s ); }
+		void push_back( const std::string& s ) {
+			auto size = value_.size();
+			value_ += s;
+			try { sizes_.push_back( size ); }
+			catch ( ... ) { value_.resize( size ); throw; }
+		}
 		void pop_back() { value_.resize( sizes_.back() ); sizes_.pop_back(); }
 
 	private:
-- 
2.43.0


From e6adaed30aedf3fe1aebe2469567d15e642abc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:53 +0000
Subject: [PATCH 59/72] fix: stop reading zml after the first error

---
 xo/serialization/prop_node_serializer_zml.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 78b448e..6619277 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -164,6 +164,9 @@ namespace xo
 				if ( !macro_label.empty() )
 					macros.add_child( macro_label, std::move( macro_pn ) );
 			}
+
+			if ( ec && ec->bad() )
+				return; // anything after an error would be misunderstood
 		}
 
 		// macros are limited by scope
-- 
2.43.0


From 8e6defe69e0547d28c4e2cbb56993ea462ebfcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:55 +0000
Subject: [PATCH 60/72] fix: children of a zml variable with a value went to
 the item before it

---
 xo/serialization/prop_node_serializer_zml.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 6619277..72310b9 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -57,6 +57,7 @@ namespace xo
 	{
 		// keep track of the number of macros so we can delete them at the end of this scope
 		auto macro_count = macros.size();
+		bool previous_is_macro = false;
 
 		// quoted tokens are always labels or values
 		auto is_token = [&]( const string& t, const string& s ) { return t == s && !str.token_quoted(); };
@@ -81,6 +82,7 @@ namespace xo
 				parent.append( load_zml_include( filename, ec, nullptr, level + 1 ) );
 				if ( included_files )
 					included_files->emplace_back( std::move( filename ) );
+				previous_is_macro = false;
 			}
 			else
 			{
@@ -111,9 +113,16 @@ namespace xo
 					else
 					{
 						// the previous item has both a value and children
-						if ( parent.size() == 0 )
+						if ( previous_is_macro )
+						{
+							macro_label = std::move( macros.back().first );
+							macro_pn = std::move( macros.back().second );
+							macros.pop_back();
+							next_parent = &macro_pn;
+						}
+						else if ( parent.size() == 0 )
 							return zml_error( str, ec, "'{' or '[' has no matching '}' or ']'" );
-						next_parent = &parent.back().second;
+						else next_parent = &parent.back().second;
 					}
 				}
 				else next_parent = &parent.add_child( "" ); // add array child
@@ -161,7 +170,8 @@ namespace xo
 					next_parent->set_value( std::move( t ) );
 				}
 
-				if ( !macro_label.empty() )
+				previous_is_macro = !macro_label.empty();
+				if ( previous_is_macro )
 					macros.add_child( macro_label, std::move( macro_pn ) );
 			}
 
-- 
2.43.0


From 619eedfed5e32c4a07bc6a02f91735875ff0929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:57 +0000
Subject: [PATCH 61/72] fix: zml values from variables counted as accessed

---
 xo/serialization/prop_node_serializer_zml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 72310b9..b0b22a7 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -158,8 +158,8 @@ namespace xo
 								[&]( auto& l ) { return t.compare( p + 2, pe - p - 2, l.first, 1 ) == 0; } );
 							if ( it != macros.rend() )
 							{
-								t.replace( p, pe - p + 1, it->second.get_str() );
-								p += it->second.get_str().size(); // advance p to avoid recursion
+								t.replace( p, pe - p + 1, it->second.peek_str() );
+								p += it->second.peek_str().size(); // advance p to avoid recursion
 							}
 							else return zml_error( str, ec, "Undefined variable: " + t.substr( p, pe - p + 1 ) );
 						}
-- 
2.43.0


From 7dc14ad37338d95ee330ae398e0c1415f2fddee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:00 +0000
Subject: [PATCH 62/72] fix: reporting and is_array marked prop_nodes as
 accessed

---
 xo/container/prop_node.cpp       |  2 +-
 xo/container/prop_node_tools.cpp | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/xo/container/prop_node.cpp b/xo/container/prop_node.cpp
index 699da70..20879a6 100644
--- a/xo/container/prop_node.cpp
+++ b/xo/container/prop_node.cpp
@@ -54,7 +54,7 @@ namespace xo
 
 	bool prop_node::is_array() const
 	{
-		return find_if( *this, [&]( const prop_node::pair_t& n ) { return !n.first.empty(); } ) == end();
+		return find_if( children, [&]( const prop_node::pair_t& n ) { return !n.first.empty(); } ) == end();
 	}
 
 	prop_node& prop_node::add_child()
diff --git a/xo/container/prop_node_tools.cpp b/xo/container/prop_node_tools.cpp
index ffec57c..a46902e 100644
--- a/xo/container/prop_node_tools.cpp
+++ b/xo/container/prop_node_tools.cpp
@@ -8,8 +8,9 @@ namespace xo
 	size_t prop_node_align_width( const prop_node& pn, const size_t indent, const size_t depth )
 	{
 		size_t width = 0;
-		for ( auto& child : pn )
+		for ( index_t i = 0; i < pn.size(); ++i ) // iterators mark pn as accessed
 		{
+			auto& child = pn.at( i );
 			width = max( width, depth * indent + child.first.size() );
 			width = max( width, prop_node_align_width( child.second, indent, depth + 1 ) );
 		}
@@ -21,8 +22,9 @@ namespace xo
 		if ( align == 0 )
 			align = prop_node_align_width( pn, 2, depth );
 
-		for ( const auto& [key, value] : pn )
+		for ( index_t i = 0; i < pn.size(); ++i )
 		{
+			const auto& [key, value] = pn.at( i );
 			std::stringstream str;
 			log::level l = log::level::info;
 			str << string( depth * 2, ' ' );
@@ -45,8 +47,9 @@ namespace xo
 	{
 		if ( pn.size() > 0 )
 		{
-			for ( auto& n : pn )
+			for ( index_t i = 0; i < pn.size(); ++i )
 			{
+				auto& n = pn.at( i );
 				if ( n.second.count_unaccessed() > 0 )
 				{
 					string str = string( depth * 2, ' ' ) + n.first;
@@ -67,8 +70,9 @@ namespace xo
 	{
 		if ( pn.size() > 0 )
 		{
-			for ( auto& n : pn )
+			for ( index_t i = 0; i < pn.size(); ++i )
 			{
+				auto& n = pn.at( i );
 				if ( n.second.count_unaccessed() > 0 )
 				{
 					str += string( depth * 2, ' ' ) + n.first;
-- 
2.43.0


From 466a74c67ceacf14c9bc49dca420702dd04fdac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:02 +0000
Subject: [PATCH 63/72] fix: report documents that zml has no notation for

---
 xo/serialization/prop_node_serializer_zml.cpp | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index b0b22a7..f031467 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -217,6 +217,23 @@ namespace xo
 			str << try_quoted( pn.get_str(), zml_special_chars );
 	}
 
+	// zml has no notation for items without label in a group and for array items with both a value and children
+	const char* find_zml_problem( const prop_node& pn )
+	{
+		bool is_array = pn.is_array();
+		for ( index_t i = 0; i < pn.size(); ++i )
+		{
+			auto& [label, child] = pn.at( i );
+			if ( label.empty() && !is_array )
+				return "Item without label outside array";
+			if ( is_array && child.has_value() && child.size() > 0 )
+				return "Value with children inside array";
+			if ( auto problem = find_zml_problem( child ) )
+				return problem;
+		}
+		return nullptr;
+	}
+
 	void write_zml_node_one_line( std::ostream& str, const string& label, const prop_node& pn, bool inside_array )
 	{
 		write_zml_kvp( str, label, pn, " = ", inside_array );
@@ -316,7 +333,9 @@ namespace xo
 	std::ostream& prop_node_serializer_zml::write_stream( std::ostream& str ) const
 	{
 		xo_assert( write_pn_ );
-		if ( !write_pn_->empty() )
+		if ( auto problem = find_zml_problem( *write_pn_ ) )
+			set_error_or_throw( ec_, problem );
+		else if ( !write_pn_->empty() )
 			write_zml_node( str, "", *write_pn_, 0, false );
 		return str;
 	}
@@ -324,7 +343,9 @@ namespace xo
 	std::ostream& prop_node_serializer_zml_concise::write_stream( std::ostream& str ) const
 	{
 		xo_assert( write_pn_ );
-		if ( !write_pn_->empty() )
+		if ( auto problem = find_zml_problem( *write_pn_ ) )
+			set_error_or_throw( ec_, problem );
+		else if ( !write_pn_->empty() )
 			write_zml_node_concise( str, "", *write_pn_, 0, false );
 		return str;
 	}
-- 
2.43.0


From e99089dbf768c72c8787fb1ff9150de6243f1182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:10 +0000
Subject: [PATCH 64/72] fix: get_application_dir cut off program paths over
 1023 characters

---
 xo/filesystem/filesystem.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xo/filesystem/filesystem.cpp b/xo/filesystem/filesystem.cpp
index 4a09bd4..7839210 100644
--- a/xo/filesystem/filesystem.cpp
+++ b/xo/filesystem/filesystem.cpp
@@ -84,10 +84,14 @@ namespace xo
 		GetModuleFileName( 0, buf, sizeof( buf ) );
 		return path( buf ).parent_path().make_preferred();
 #elif defined(__linux__)
-		char buf[1024];
-		auto len = readlink( "/proc/self/exe", buf, sizeof( buf ) - 1 );
+		string buf( 1024, '\0' );
+		auto len = readlink( "/proc/self/exe", &buf[0], buf.size() );
+		while ( len == static_cast<ssize_t>( buf.size() ) ) { // result may be truncated
+			buf.resize( 2 * buf.size() );
+			len = readlink( "/proc/self/exe", &buf[0], buf.size() );
+		}
 		if ( len != -1 ) {
-			buf[len] = '\0';
+			buf.resize( len );
 			return path( buf ).parent_path();
 		}
 		else return path();
-- 
2.43.0


From 1ae72a99c868ac9cc5eb9628cec57c37dc4ae070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:12 +0000
Subject: [PATCH 65/72] fix: current_path without a current folder used a null
 pointer, and leaked when memory ran out

---
 xo/filesystem/filesystem.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xo/filesystem/filesystem.cpp b/xo/filesystem/filesystem.cpp
index 7839210..5e34986 100644
--- a/xo/filesystem/filesystem.cpp
+++ b/xo/filesystem/filesystem.cpp
@@ -1,6 +1,7 @@
 #include "filesystem.h"
 
 #include <fstream>
+#include <memory>
 #include <sstream>
 #include <filesystem>
 #include <sys/types.h>
@@ -316,10 +317,9 @@ namespace xo
 
 	path current_path()
 	{
-		char* buf = getcwd( NULL, 0 );
-		path p( buf );
-		free( buf );
-		return p;
+		std::unique_ptr<char, decltype( &free )> buf( getcwd( NULL, 0 ), &free );
+		xo_error_if( !buf, "Could not get current path" );
+		return path( buf.get() );
 	}
 
 	std::time_t last_write_time( const path& p )
-- 
2.43.0


From 814a3c5aedc10eddbfaef111531a77003ab961b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:13 +0000
Subject: [PATCH 66/72] fix: get_computer_name read past its buffer for long
 host names and failed calls

---
 xo/system/system_tools.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xo/system/system_tools.cpp b/xo/system/system_tools.cpp
index 91a62be..d696835 100644
--- a/xo/system/system_tools.cpp
+++ b/xo/system/system_tools.cpp
@@ -119,8 +119,9 @@ namespace xo
 			return buf;
 		else return "";
 #elif defined( __linux__ )
-		char hostname[HOST_NAME_MAX];
-		gethostname( hostname, HOST_NAME_MAX );
+		char hostname[HOST_NAME_MAX + 1] = ""; // HOST_NAME_MAX excludes the terminator
+		if ( gethostname( hostname, sizeof( hostname ) ) != 0 )
+			return "";
 		return string( hostname );
 #elif defined( __APPLE__ )
 		char hostname[256];
-- 
2.43.0


From d6ef7d3787ed2b6ee19e58adaea579d07298d860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:14 +0000
Subject: [PATCH 67/72] fix: date strings were cut when memory ran out

---
 xo/system/system_tools.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xo/system/system_tools.cpp b/xo/system/system_tools.cpp
index d696835..dc675d5 100644
--- a/xo/system/system_tools.cpp
+++ b/xo/system/system_tools.cpp
@@ -53,6 +53,7 @@ namespace xo
 		localtime_r( &t, &tm ); // std::localtime() is not thread safe
 #endif
 		std::stringstream ss;
+		ss.exceptions( std::ios::badbit ); // running out of memory must not truncate the result
 		ss << std::put_time( &tm, format );
 		return ss.str();
 	}
-- 
2.43.0


From 27f9410fa2f985d51fccb4c6ad7cfc03652321eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:30 +0000
Subject: [PATCH 68/72] fix: sinks missed messages of their thread while being
 set to accept all threads

---
 xo/system/log_sink.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xo/system/log_sink.cpp b/xo/system/log_sink.cpp
index 16e5498..1c17a34 100644
--- a/xo/system/log_sink.cpp
+++ b/xo/system/log_sink.cpp
@@ -64,7 +64,8 @@ namespace xo
 
 		void sink::set_sink_mode( sink_mode m )
 		{
-			thread_id_ = std::this_thread::get_id();
+			if ( m == sink_mode::current_thread )
+				thread_id_ = std::this_thread::get_id();
 			sink_mode_ = m;
 		}
 
-- 
2.43.0


From a2bbd7ac285405384ed41dfad04a26909ab3da67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:41 +0000
Subject: [PATCH 69/72] fix: colours that could not be read because memory ran
 out were refused as invalid

---
 xo/utility/color.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xo/utility/color.cpp b/xo/utility/color.cpp
index e60225b..902769c 100644
--- a/xo/utility/color.cpp
+++ b/xo/utility/color.cpp
@@ -57,6 +57,7 @@ namespace xo
 			}
 			else return false;
 		}
+		catch ( std::bad_alloc& ) { throw; } // says nothing about the value
 		catch ( std::exception& ) { return false; }
 	}
 
-- 
2.43.0


From 900d92cd58fc291c1fe7e5fbfb4d1ef36b3248fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:57 +0000
Subject: [PATCH 70/72] fix: to_str of a prop_node must not be cut when memory
 runs out

---
 xo/container/prop_node.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xo/container/prop_node.cpp b/xo/container/prop_node.cpp
index 20879a6..37090fb 100644
--- a/xo/container/prop_node.cpp
+++ b/xo/container/prop_node.cpp
@@ -338,6 +338,7 @@ namespace xo
 	string to_str( const prop_node& pn )
 	{
 		std::ostringstream str;
+		str.exceptions( std::ios::badbit ); // running out of memory must not truncate the result
 		to_stream( str, pn, 0, 0 );
 		return str.str();
 	}
-- 
2.43.0


From a4dc8951a108a700a2ba5d0f9dac6d9cd23bc8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:14 +0000
Subject: [PATCH 71/72] fix: log_prop_node must not log incomplete lines when
 memory runs out

---
 xo/container/prop_node_tools.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xo/container/prop_node_tools.cpp b/xo/container/prop_node_tools.cpp
index a46902e..824800c 100644
--- a/xo/container/prop_node_tools.cpp
+++ b/xo/container/prop_node_tools.cpp
@@ -26,6 +26,7 @@ namespace xo
 		{
 			const auto& [key, value] = pn.at( i );
 			std::stringstream str;
+			str.exceptions( std::ios::badbit ); // running out of memory must not truncate the message
 			log::level l = log::level::info;
 			str << string( depth * 2, ' ' );
 			if ( str_begins_with( key, '@' ) && key.size() >= 2 )
-- 
2.43.0


From daff6840897ccb51633026544e1edcd262d1019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:47 +0000
Subject: [PATCH 72/72] fix: error_message::append must keep the message whole
 when memory runs out or when it is appended to itself

---
 xo/utility/result.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/utility/result.h b/xo/utility/result.h
index fce922e..d1b7f5c 100644
--- a/xo/utility/result.h
+++ b/xo/utility/result.h
@@ -19,7 +19,7 @@ namespace xo
 		error_message& operator=( string&& msg ) noexcept { message_ = std::move( msg ); return *this; }
 
 		void append( const error_message& msg ) {
-			if ( !message_.empty() ) message_ += "\n"; message_ += msg.message_;
+			message_ = message_.empty() ? msg.message_ : message_ + "\n" + msg.message_; // msg can be this, and nothing must be lost when memory runs out
 		}
 
 		bool good() const { return message_.empty(); }
-- 
2.43.0

