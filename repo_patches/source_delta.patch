From 6b13e3ecf9f86844e1a8df6223e18a4bdecce6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 01/47] fix: construct levels in place instead of copying
 opened levels

Opening another level resized a std::vector<Level> and copied the already
opened levels without their data, offsets, mutexes and counters.
---
 grid/simplecontainer.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/grid/simplecontainer.h b/grid/simplecontainer.h
index 16ae028..47bec96 100644
--- a/grid/simplecontainer.h
+++ b/grid/simplecontainer.h
@@ -38,7 +38,7 @@
 #ifndef GRID_SIMPLECONTAINER_H
 #define GRID_SIMPLECONTAINER_H
 
-#include <vector>
+#include <deque>
 
 #include "typedcontainer.h"
 
@@ -55,7 +55,7 @@ class SimpleContainer : public TypedContainer<Type>
 {
 private:
 	/** All grids we control */
-	std::vector<Level> m_levels;
+	std::deque<Level> m_levels;
 
 public:
 	/**
@@ -82,9 +82,9 @@ public:
 			int cacheHandSpread,
 			unsigned int level)
 	{
-		if (m_levels.size() <= level)
-			m_levels.resize(level+1,
-					Level(this->comm(), this->numa(), this->type()));
+		// Construct new levels in place, levels must not be copied or moved
+		while (m_levels.size() <= level)
+			m_levels.emplace_back(this->comm(), this->numa(), this->type());
 
 		asagi::Grid::Error err = m_levels[level].open(
 				filename,
-- 
2.43.0


From 00d51fd4ebb939789ff5432ce3ac8467977e7a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 02/47] fix: return the counter of the requested level

---
 grid/grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 49c82be..87ed8d8 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -257,7 +257,7 @@ unsigned long grid::Grid::getCounter(const char* name, unsigned int level)
 	// Aggregate over all NUMA domains
 	for (std::vector<Container*>::const_iterator it = m_containers.begin();
 			it != m_containers.end(); it++)
-		counter += (*it)->getCounter(type);
+		counter += (*it)->getCounter(type, level);
 
 	return counter;
 }
-- 
2.43.0


From c758bffa22411a4e0d06bd8ccf54b4f1ccfe6300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 03/47] fix: keep the second hand of the clock algorithm inside
 the cache

A hand spread of at least the cache size overflowed the array of flags.
---
 cache/lru.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache/lru.h b/cache/lru.h
index 625f5ac..b738d8d 100644
--- a/cache/lru.h
+++ b/cache/lru.h
@@ -82,7 +82,8 @@ public:
 			// Some default value
 			m_nextClear = size / 2;
 		else
-			m_nextClear = handDiff;
+			// The hands move on a circle
+			m_nextClear = handDiff % size;
 
 		m_referenced = new bool[size];
 		// Rest of the array will bet set to "false" by getFree()
-- 
2.43.0


From 6ec2327a36f60f12982612420ff51d8b9d4d9d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 04/47] fix: select the only element for infinite coordinates
 in dimensions without spacing

inf * 0 is NaN, its conversion to an index is undefined.
---
 grid/level/level.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/grid/level/level.h b/grid/level/level.h
index f0e8654..5fb8523 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -356,11 +356,14 @@ protected:
 	void pos2index(const double* pos, size_t* index)
 	{
 		for (int i = m_dims-1; i >= 0; i--) {
-			double x = round((pos[m_dims-i-1] - m_offset[i]) * m_scalingInv[i]);
+			// Without a spacing, all coordinates select the first element
+			// (infinite coordinates would result in NaN otherwise)
+			double x = (m_scalingInv[i] == 0 ? 0
+				: round((pos[m_dims-i-1] - m_offset[i]) * m_scalingInv[i]));
 
-			if (x < 0 || x >= m_size[i]) {
+			if (!(x >= 0) || x >= m_size[i]) {
 				logWarning() << "ASAGI: Coordinate in dimension" << (m_dims-i-1) << " is out of range. Fixing.";
-				if (x < 0)
+				if (!(x >= 0))
 					x = 0;
 				else
 					x = m_size[i]-1;
-- 
2.43.0


From 1d818cafe708b14cf99a6fd62a6b989807cdfaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 05/47] fix: typed reads of arrays and structs convert the
 first element

convert(const void*, void*) hid the templates of BasicType. Hence, getDouble()
and the others copied the whole value into a variable of the requested type
and overwrote the memory behind it.
---
 types/arraytype.h  | 3 +++
 types/structtype.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/types/arraytype.h b/types/arraytype.h
index 5cfc734..237c245 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -143,6 +143,9 @@ public:
 		file.getBlock<void>(buf, offset, size);
 	}
 
+	/** Do not hide the conversion of the first element */
+	using BasicType<T>::convert;
+
 	/**
 	 * @copydoc BasicType::convert(const void*, void*)
 	 */
diff --git a/types/structtype.h b/types/structtype.h
index ee5cb20..96b4b30 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -214,6 +214,9 @@ public:
 		file.getBlock<void>(buf, offset, size);
 	}
 
+	/** Do not hide the conversion of the first element */
+	using BasicType<T>::convert;
+
 	/**
 	 * @copydoc BasicType::convert(const void*, void*)
 	 */
-- 
2.43.0


From 5d70507b1ec9befbca5d250683731379b2de35c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 06/47] fix: reject variables without dimensions

They were opened successfully, reading them accessed memory outside of the
local arrays.
---
 io/netcdfreader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/netcdfreader.cpp b/io/netcdfreader.cpp
index 801bcf4..1148c37 100644
--- a/io/netcdfreader.cpp
+++ b/io/netcdfreader.cpp
@@ -90,7 +90,7 @@ asagi::Grid::Error io::NetCdfReader::open(const char* varname)
 
 	nc_inq_varndims(m_file, m_variable, &m_dimensions);
 	
-	if (m_dimensions > MAX_DIMENSIONS) {
+	if (m_dimensions < 1 || m_dimensions > MAX_DIMENSIONS) {
 		logDebug(m_rank) << "Unsupported number of variable dimensions:"
 			<< m_dimensions;
 
-- 
2.43.0


From ad896d9911073624a845d7e6977cf11fed930010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 07/47] fix: reject variables with empty dimensions

The size of the blocks became 0, computing the number of blocks crashed with a
division by zero.
---
 io/netcdfreader.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/io/netcdfreader.cpp b/io/netcdfreader.cpp
index 1148c37..987cfc3 100644
--- a/io/netcdfreader.cpp
+++ b/io/netcdfreader.cpp
@@ -119,6 +119,17 @@ asagi::Grid::Error io::NetCdfReader::open(const char* varname)
 		logDebug(m_rank) << "\t dimension" << (m_dimensions-i-1) << ":="
 			<< m_names[i];
 	}
+
+	for (int i = 0; i < m_dimensions; i++) {
+		if (m_size[i] == 0) {
+			// E.g. an unlimited dimension without any records
+			logDebug(m_rank) << "Dimension" << (m_dimensions-i-1) << "is empty";
+
+			nc_close(m_file);
+			m_file = -1;
+			return asagi::Grid::UNSUPPORTED_DIMENSIONS;
+		}
+	}
 	
 	nc_type type;
 	nc_inq_vartype(m_file, m_variable, &type);
-- 
2.43.0


From e5c1e70100f23e79d8008f0dd8b728fbbdbb008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 08/47] fix: ignore coordinate variables that are not
 one-dimensional or not readable

nc_get_var1_double() got one index for variables with several dimensions, and
uninitialized values were used as offset and spacing if the call failed.
---
 io/netcdfreader.h | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/io/netcdfreader.h b/io/netcdfreader.h
index 9d377de..c9200cb 100644
--- a/io/netcdfreader.h
+++ b/io/netcdfreader.h
@@ -146,12 +146,12 @@ public:
 
 		std::lock_guard<threads::Mutex> lock(netcdfLock);
 		int x;
-		if (nc_inq_varid(m_file, m_names[i].c_str(), &x) != NC_NOERR)
+		if (!getCoordinateVar(i, x))
 			return 0;
 
 		double result;
-		size_t index = 0;
-		nc_get_var1_double(m_file, x, &index, &result);
+		if (!getCoordinate(x, 0, result))
+			return 0;
 		return result;
 	}
 	
@@ -170,14 +170,12 @@ public:
 
 		std::lock_guard<threads::Mutex> lock(netcdfLock);
 		int x;
-		if (nc_inq_varid(m_file, m_names[i].c_str(), &x) != NC_NOERR)
+		if (!getCoordinateVar(i, x))
 			return 1;
 
 		double first, last;
-		size_t index = 0;
-		nc_get_var1_double(m_file, x, &index, &first);
-		index = size - 1;
-		nc_get_var1_double(m_file, x, &index, &last);
+		if (!getCoordinate(x, 0, first) || !getCoordinate(x, size - 1, last))
+			return 1;
 	
 		return (last - first) / (size - 1);
 	}
@@ -226,6 +224,28 @@ public:
 	}
 	
 private:
+	/**
+	 * Finds the coordinate variable of a dimension
+	 *
+	 * @return True if there is a one-dimensional variable with the name of
+	 *  the dimension, false otherwise
+	 */
+	bool getCoordinateVar(int i, int &var) const
+	{
+		int dims;
+		return nc_inq_varid(m_file, m_names[i].c_str(), &var) == NC_NOERR
+			&& nc_inq_varndims(m_file, var, &dims) == NC_NOERR
+			&& dims == 1;
+	}
+
+	/**
+	 * @return True if the value could be read, false otherwise
+	 */
+	bool getCoordinate(int var, size_t index, double &value) const
+	{
+		return nc_get_var1_double(m_file, var, &index, &value) == NC_NOERR;
+	}
+
 	/**
 	 * Reads a hyperslab from the netCDF file
 	 *
-- 
2.43.0


From 5b1c4c5ebc8efb27d45db1806d8c665b1528d5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 09/47] fix: close the file of a failed open when the level is
 opened again

---
 grid/level/level.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grid/level/level.h b/grid/level/level.h
index 5fb8523..62311b3 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -218,6 +218,9 @@ protected:
 
 		asagi::Grid::Error err;
 
+		// A previous open might have failed
+		closeInputFile();
+
 		// Open NetCDF file
 		m_inputFile = new io::NetCdfReader(filename, comm().rank());
 		if ((err = m_inputFile->open(varname)) != asagi::Grid::SUCCESS)
-- 
2.43.0


From ccb42d61bdad0b853559e7ac12d7d80fd05ef710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 10/47] fix: keep the sign of TIME_DIMENSION and
 CACHE_HAND_SPREAD

setParam() replaced '-' by '_' in the values, -1 was not parsed as a number.
---
 grid/grid.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 87ed8d8..1491a6b 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -201,8 +201,11 @@ void grid::Grid::setParam(const char* name, const char* value, unsigned int leve
 	std::replace(n.begin(), n.end(), '-', '_');
 
 	// Convert non name values to upper case
+	// (do not change the sign of numbers)
 	std::string v = value;
 	if (n != "VARIABLE"
+			&& n != "TIME_DIMENSION"
+			&& n != "CACHE_HAND_SPREAD"
 			&& !utils::StringUtils::startsWith(n, "BLOCK_SIZE_")) {
 		utils::StringUtils::toUpper(v);
 		std::replace(v.begin(), v.end(), '-', '_');
-- 
2.43.0


From 9107375688adeb2ebf76b3e81b85e34435e0cae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 11/47] fix: use the default block size 1 in the time dimension

The value was overwritten by the default of the other dimensions.
---
 grid/level/blocked.h | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/grid/level/blocked.h b/grid/level/blocked.h
index b8ff243..557625d 100644
--- a/grid/level/blocked.h
+++ b/grid/level/blocked.h
@@ -103,21 +103,19 @@ protected:
 			timeDimension = -1;
 		}
 
-		// Set block size in time dimension
-		if ((timeDimension >= 0) && (blockSize[timeDimension] == 0)) {
-			logDebug(this->comm().rank()) << "Setting block size in time dimension to 1";
-			// C to Fortran mapping
-			m_blockSize[this->dimensions() - timeDimension - 1] = 1;
-		}
-
 		// Set default block size and calculate number of blocks and total block size
 		m_totalBlocks = 1;
 		m_totalBlockSize = 1;
 		for (unsigned int i = 0; i < this->dimensions(); i++) {
-			if (blockSize[this->dimensions() - i - 1] == 0)
-				// Setting default block size, if not yet set
-				m_blockSize[i] = 64;
-			else if (blockSize[this->dimensions() - i - 1] < 0)
+			if (blockSize[this->dimensions() - i - 1] == 0) {
+				// Setting default block size
+				// C to Fortran mapping
+				if (static_cast<int>(this->dimensions() - i - 1) == timeDimension) {
+					logDebug(this->comm().rank()) << "Setting block size in time dimension to 1";
+					m_blockSize[i] = 1;
+				} else
+					m_blockSize[i] = 64;
+			} else if (blockSize[this->dimensions() - i - 1] < 0)
 				// Set block size to maximum
 				m_blockSize[i] = this->size(i);
 			else
-- 
2.43.0


From 9e8eaa45ebeefb386bee07aba71479b8cf9ea41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 12/47] fix: share cached blocks between NUMA domains without
 MPI

---
 grid/grid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 1491a6b..76cd27e 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -350,9 +350,9 @@ void grid::Grid::initContainers()
 	if (gridType == "CACHE") {
 		if (mpiType == "OFF") {
 			if (numaType == "OFF")
-				containerType = CACHE_NUMA;
-			else
 				containerType = CACHE;
+			else
+				containerType = CACHE_NUMA;
 		} else if (mpiType == "THREAD") {
 			if (numaType == "OFF")
 				containerType = CACHE_MPITHREAD;
-- 
2.43.0


From bda40fbb5614f74ae5149dd09ffa48af92a41336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 13/47] fix: tolerate spurious wake-ups in barriers

---
 threads/sync.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/threads/sync.h b/threads/sync.h
index b523241..f9270bb 100644
--- a/threads/sync.h
+++ b/threads/sync.h
@@ -106,11 +106,15 @@ public:
 	 */
 	bool startBarrier()
 	{
-		if (!pthread_mutex_lock(&m_mutex))
+		if (pthread_mutex_lock(&m_mutex) != 0)
+			return false;
 
-		if (m_finishing) {
-			if (pthread_cond_wait(&m_finishCondition, &m_mutex))
+		// Condition variables may have spurious wake-ups
+		while (m_finishing) {
+			if (pthread_cond_wait(&m_finishCondition, &m_mutex) != 0) {
+				pthread_mutex_unlock(&m_mutex);
 				return false;
+			}
 		}
 
 		return true;
@@ -139,14 +143,16 @@ public:
 				return false;
 			}
 		} else {
-			if (pthread_cond_wait(&m_condition, &m_mutex) != 0) {
-				pthread_mutex_unlock(&m_mutex);
-				return false;
+			while (!m_finishing) {
+				if (pthread_cond_wait(&m_condition, &m_mutex) != 0) {
+					pthread_mutex_unlock(&m_mutex);
+					return false;
+				}
 			}
 		}
 
 		// If this is a last, wait for all other threads
-		if (last && m_syncedThreads > m_lastThreads) {
+		while (last && m_syncedThreads > m_lastThreads) {
 			if (pthread_cond_wait(&m_lastCondition, &m_mutex) != 0) {
 				pthread_mutex_unlock(&m_mutex);
 				return false;
-- 
2.43.0


From dd5676aa381114755251d52be4f7256442a08dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:01 +0000
Subject: [PATCH 14/47] fix: receive dictionary entries with the tag of the
 level

---
 transfer/mpithreadcache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index 9439405..631a6ca 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -469,7 +469,7 @@ public:
 		mpi::CommThread::commThread.send(m_blockInfoTag, dictRank, dictOffset);
 
 		long entry;
-		mpiResult = MPI_Recv(&entry, 1, MPI_LONG, dictRank, ENTRY_TAG,
+		mpiResult = MPI_Recv(&entry, 1, MPI_LONG, dictRank, m_tagOffset+ENTRY_TAG,
 				mpiComm().comm(), MPI_STATUS_IGNORE);
 		assert(mpiResult == MPI_SUCCESS);
 
-- 
2.43.0


From 37bce23926c4abc2155f3ffa13e2c5570797722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 15/47] fix: load the blocks of all NUMA domains before other
 processes access them

---
 grid/level/fulldist.h |  6 ++++++
 numa/numacomm.h       | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/grid/level/fulldist.h b/grid/level/fulldist.h
index 7536f77..fb336e9 100644
--- a/grid/level/fulldist.h
+++ b/grid/level/fulldist.h
@@ -125,6 +125,12 @@ public:
 				this->typeSize() * this->totalBlockSize(),
 				cacheHandSpread);
 
+		// Make sure the blocks of all NUMA domains are loaded before other
+		// processes can access them
+		err = this->numa().barrier();
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
 		// Initialize the MPI transfer class
 		err = m_mpiTrans.init(this->data(),
 				this->localBlockCount(), this->totalBlockSize(),
diff --git a/numa/numacomm.h b/numa/numacomm.h
index 4f67bb8..b582b77 100644
--- a/numa/numacomm.h
+++ b/numa/numacomm.h
@@ -121,6 +121,18 @@ public:
 		return asagi::Grid::SUCCESS;
 	}
 
+	/**
+	 * Waits for all NUMA masters.
+	 * This is a collective operation among the NUMA masters.
+	 */
+	asagi::Grid::Error barrier()
+	{
+		if (!m_sync.barrier(totalDomains()))
+			return asagi::Grid::THREAD_ERROR;
+
+		return asagi::Grid::SUCCESS;
+	}
+
 	/**
 	 * Allocates memory for all NUMA domains. This is a collective
 	 * operation among the NUMA masters.
-- 
2.43.0


From 89a4dc564816d4c85d2d0cb5c7f3dcfee228f3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 16/47] fix: initialize the dictionary of all NUMA domains
 before other processes access it

---
 transfer/mpicache.h       |  4 +++-
 transfer/mpithreadcache.h |  8 +++++---
 transfer/mpiwincache.h    | 17 +++++++++--------
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/transfer/mpicache.h b/transfer/mpicache.h
index c715807..22954cd 100644
--- a/transfer/mpicache.h
+++ b/transfer/mpicache.h
@@ -116,7 +116,9 @@ protected:
 				i < blockCount * totalDictEntrySize() * (m_numaDomainId+1); i++)
 			m_dictionary[i] = -1;
 
-		return asagi::Grid::SUCCESS;
+		// Other processes should not access the dictionary before all
+		// NUMA domains initialized their part
+		return numaComm.barrier();
 	}
 
 	/**
diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index 631a6ca..cd5d0d3 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -363,8 +363,10 @@ public:
 		m_blockSize = blockSize;
 		m_mpiType = type.getMPIType();
 
-		MPICache<allocator::Default, false>::init(cacheSize,
+		asagi::Grid::Error err = MPICache<allocator::Default, false>::init(cacheSize,
 				blockCount, mpiComm, numaComm);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
 
 		if (m_numaDomainId == 0) {
 			m_cacheManager = new cache::CacheManager*[m_numaDomainSize];
@@ -378,7 +380,7 @@ public:
 			m_mutexes = new threads::Mutex[blockCount * m_numaDomainSize];
 
 			// Initialize the receivers
-			asagi::Grid::Error err = mpi::CommThread::commThread
+			err = mpi::CommThread::commThread
 				.registerReceiver(mpiComm.comm(), m_blockInfoResponder, m_blockInfoTag);
 			if (err != asagi::Grid::SUCCESS)
 				return err;
@@ -404,7 +406,7 @@ public:
 			m_blockMutex = new threads::Mutex();
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_cacheManager);
+		err = numaComm.broadcast(m_cacheManager);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/transfer/mpiwincache.h b/transfer/mpiwincache.h
index 6dfd886..6857b70 100644
--- a/transfer/mpiwincache.h
+++ b/transfer/mpiwincache.h
@@ -166,13 +166,20 @@ public:
 			return err;
 
 		// Setup the parent
-		MPICache<allocator::MPIAlloc, true>::init(cacheSize,
+		err = MPICache<allocator::MPIAlloc, true>::init(cacheSize,
 				blockCount, mpiComm, numaComm);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
 
 		if (m_numaDomainId == 0) {
 			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
 
 			m_dictWinMutex = new threads::Mutex();
+			m_mpiMutex = new mpi::Mutex();
+
+			// Initialize the mutex memory before other processes can access it
+			for (unsigned long i = 0; i < blockCount * numaComm.totalDomains(); i++)
+				m_mpiMutex->initMutexMem(dictionary(i)[dictEntrySize()]);
 
 			if (MPI_Win_create(dictionary(),
 				sizeof(long) * totalDictEntrySize() * blockCount * numaComm.totalDomains(),
@@ -182,8 +189,7 @@ public:
 				&m_dictWin) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
 
-			// Create the MPI mutex
-			m_mpiMutex = new mpi::Mutex();
+			// Initialize the MPI mutex
 			m_mpiMutex->init(mpiComm, m_dictWin, numaComm);
 
 			// Create cache window mutex
@@ -219,11 +225,6 @@ public:
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-		// Initialize the mutex memory
-		for (unsigned long i = blockCount * m_numaDomainId;
-				i < blockCount * (m_numaDomainId+1); i++)
-			m_mpiMutex->initMutexMem(dictionary(i)[dictEntrySize()]);
-
 		return asagi::Grid::SUCCESS;
 	}
 
-- 
2.43.0


From 6e29f7430d5b8fa53c016c89f2b9fb9ce30f24a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:38 +0000
Subject: [PATCH 17/47] fix: wait until all processes know a receiver before
 sending messages to it

---
 mpi/commthread.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 6a64b0e..d48913d 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -237,6 +237,10 @@ public:
 		MPI_Comm_group(comm, &detail.group);
 		m_receiver[tag] = detail;
 
+		// Do not send messages before all processes know the receiver
+		if (MPI_Barrier(comm) != MPI_SUCCESS)
+			return asagi::Grid::MPI_ERROR;
+
 		return asagi::Grid::SUCCESS;
 	}
 
-- 
2.43.0


From 75f25e337a5a884f5182ccb8cb91b43730f8b153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:32 +0000
Subject: [PATCH 18/47] fix: use different tags for the blocks of different
 levels

---
 transfer/mpithreadfull.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/transfer/mpithreadfull.h b/transfer/mpithreadfull.h
index 1199a1a..8939863 100644
--- a/transfer/mpithreadfull.h
+++ b/transfer/mpithreadfull.h
@@ -92,6 +92,9 @@ private:
 	/** The tag used for communication */
 	int m_tag;
 
+	/** The tag used for the blocks */
+	int m_blockTag;
+
 	/** Lock send-receive pairs to avoid threading issues */
 	threads::Mutex* m_sendRecvMutex;
 
@@ -102,6 +105,7 @@ public:
 		  m_numaDomainId(0),
 		  m_comm(MPI_COMM_NULL), m_mpiType(MPI_DATATYPE_NULL),
 		  m_tag(-1),
+		  m_blockTag(0),
 		  m_sendRecvMutex(0L)
 	{
 	}
@@ -129,7 +133,7 @@ public:
 			unsigned long blockCount,
 			unsigned long blockSize,
 			const types::Type &type,
-			const mpi::MPIComm &mpiComm,
+			mpi::MPIComm &mpiComm,
 			numa::NumaComm &numaComm)
 	{
 		m_data = data;
@@ -140,6 +144,9 @@ public:
 		m_mpiType = type.getMPIType();
 
 		if (m_numaDomainId == 0) {
+			// Required as soon as the receiver is registered
+			m_blockTag = mpiComm.reserveTags(1);
+
 			asagi::Grid::Error err = mpi::CommThread::commThread
 				.registerReceiver(m_comm, *this, m_tag);
 			if (err != asagi::Grid::SUCCESS)
@@ -152,6 +159,10 @@ public:
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
+		err = numaComm.broadcast(m_blockTag);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
 		err = numaComm.broadcast(m_sendRecvMutex);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
@@ -175,7 +186,7 @@ public:
 
 		mpi::CommThread::commThread.send(m_tag, remoteRank, offset);
 
-		mpiResult = MPI_Recv(cache, m_blockSize, m_mpiType, remoteRank, 0, m_comm, MPI_STATUS_IGNORE);
+		mpiResult = MPI_Recv(cache, m_blockSize, m_mpiType, remoteRank, m_blockTag, m_comm, MPI_STATUS_IGNORE);
 		assert(mpiResult == MPI_SUCCESS);
 	}
 
@@ -186,7 +197,7 @@ public:
 		int mpiResult; NDBG_UNUSED(mpiResult);
 
 		mpiResult = MPI_Send(const_cast<unsigned char*>(&m_data[blockId*m_blockSize*m_typeSize]),
-				m_blockSize, m_mpiType, sender, 0, m_comm);
+				m_blockSize, m_mpiType, sender, m_blockTag, m_comm);
 		assert(mpiResult == MPI_SUCCESS);
 	}
 };
-- 
2.43.0


From c23d2249ffcbf93b3d637a009f999f02a7de332b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 19/47] fix: reserve the tags of a level before its receivers
 are registered

---
 transfer/mpithreadcache.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index cd5d0d3..3e20115 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -379,6 +379,9 @@ public:
 			// Create the mutexes for the blocks
 			m_mutexes = new threads::Mutex[blockCount * m_numaDomainSize];
 
+			// Required as soon as the receivers are registered
+			m_tagOffset = mpiComm.reserveTags(3);
+
 			// Initialize the receivers
 			err = mpi::CommThread::commThread
 				.registerReceiver(mpiComm.comm(), m_blockInfoResponder, m_blockInfoTag);
@@ -400,8 +403,6 @@ public:
 			if (err != asagi::Grid::SUCCESS)
 				return err;
 
-			m_tagOffset = mpiComm.reserveTags(3);
-
 			m_infoMutex = new threads::Mutex();
 			m_blockMutex = new threads::Mutex();
 		}
-- 
2.43.0


From b1848655379a5f7536a353b74ec8ca92ad7c816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 20/47] fix: limit the number of retries when other processes
 refuse to send a block

---
 grid/level/cachedist.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/grid/level/cachedist.h b/grid/level/cachedist.h
index 7f185a4..9141434 100644
--- a/grid/level/cachedist.h
+++ b/grid/level/cachedist.h
@@ -74,6 +74,9 @@ private:
 	/** Number of blocks in the cache */
 	unsigned int m_cacheSize;
 
+	/** Maximum number of retries before a block is loaded from the file */
+	static const unsigned int MAX_RETRIES = 16;
+
 public:
 	/**
 	 * @copydoc Cache::Cache
@@ -170,9 +173,12 @@ public:
 				// The communication thread uses error detection. Which means, a block
 				// might get deleted between startTransfer and transfer. In this case,
 				// retrying another MPI rank might be worthwhile.
+				// The other rank also refuses while its cache is locked. Limit the
+				// number of retries because it may wait for a block from us.
 
 				bool retry;
 				bool received = false;
+				unsigned int retries = 0;
 
 				do {
 					retry = false;
@@ -188,7 +194,7 @@ public:
 						this->incCounter(perf::Counter::MPI);
 						received = true;
 					}
-				} while (retry);
+				} while (retry && ++retries <= MAX_RETRIES);
 
 				if (!received)
 					this->loadBlock(index, data);
-- 
2.43.0


From 51d3df65c59af5cbd25d2265f47b2e944a44c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 21/47] fix: keep the other dictionary entries if the deleted
 entry is not listed

---
 transfer/mpicache.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transfer/mpicache.h b/transfer/mpicache.h
index 22954cd..3cd33ca 100644
--- a/transfer/mpicache.h
+++ b/transfer/mpicache.h
@@ -195,6 +195,10 @@ protected:
 				break;
 		}
 
+		if (i == m_dictEntrySize)
+			// Entry was already replaced by a newer one
+			return;
+
 		for (; i < m_dictEntrySize-1; i++)
 			dictEntry[i] = dictEntry[i+1];
 
-- 
2.43.0


From 22986a131c5e2f2bc4b9c8cf9c0711bdaca6db4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 22/47] fix: do not use the types of arrays and structs before
 they are complete

---
 types/arraytype.h  | 8 ++------
 types/structtype.h | 7 ++-----
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/types/arraytype.h b/types/arraytype.h
index 237c245..ae29b26 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -94,14 +94,12 @@ public:
 
 		unsigned int arraySize = file.getVarSize() / sizeof(T);
 
-		// Lock the array size
-		m_lock.lock();
+		// Other threads should not use the type before it is complete
+		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_arraySize == 0) {
 			m_arraySize = arraySize;
 
-			m_lock.unlock();
-
 #ifndef ASAGI_NOMPI
 			// Create the mpi datatype
 			if (MPI_Type_contiguous(m_arraySize, BasicType<T>::getMPIType(),
@@ -111,8 +109,6 @@ public:
 				return asagi::Grid::MPI_ERROR;
 #endif // ASAGI_NOMPI
 		} else {
-			std::lock_guard<threads::Mutex> lock(m_lock, std::adopt_lock);
-
 			if (arraySize != m_arraySize)
 				return asagi::Grid::WRONG_SIZE;
 		}
diff --git a/types/structtype.h b/types/structtype.h
index 96b4b30..9055c2e 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -144,13 +144,12 @@ public:
 	{
 		unsigned int size = file.getVarSize();
 
-		m_lock.lock();
+		// Other threads should not use the type before it is complete
+		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_size == 0) {
 			m_size = size;
 
-			m_lock.unlock();
-
 #ifndef ASAGI_NOMPI
 			MPI_Datatype tmpType;
 
@@ -182,8 +181,6 @@ public:
 			m_types = 0L;
 #endif // ASAGI_NOMPI
 		} else {
-			std::lock_guard<threads::Mutex> lock(m_lock, std::adopt_lock);
-
 			if (size != m_size)
 				return asagi::Grid::WRONG_SIZE;
 		}
-- 
2.43.0


From 1f3794b7e00181dea6839f77662e3f867192bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 23/47] fix: lock MPI while types are created and freed

---
 types/arraytype.h  | 7 ++++++-
 types/structtype.h | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/types/arraytype.h b/types/arraytype.h
index ae29b26..47d50ee 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -44,6 +44,7 @@
 
 #include "basictype.h"
 #include "io/netcdfreader.h"
+#include "mpi/mpicomm.h"
 #include "threads/mutex.h"
 
 namespace types {
@@ -79,8 +80,10 @@ public:
 	virtual ~ArrayType()
 	{
 #ifndef ASAGI_NOMPI
-		if (m_mpiType != MPI_DATATYPE_NULL)
+		if (m_mpiType != MPI_DATATYPE_NULL) {
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
 			MPI_Type_free(&m_mpiType);
+		}
 #endif // ASAGI_NOMPI
 	}
 
@@ -102,6 +105,8 @@ public:
 
 #ifndef ASAGI_NOMPI
 			// Create the mpi datatype
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
+
 			if (MPI_Type_contiguous(m_arraySize, BasicType<T>::getMPIType(),
 					&m_mpiType) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
diff --git a/types/structtype.h b/types/structtype.h
index 9055c2e..3c0f3c8 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -43,6 +43,7 @@
 #include <mutex>
 
 #include "basictype.h"
+#include "mpi/mpicomm.h"
 #include "threads/mutex.h"
 
 namespace types {
@@ -128,8 +129,10 @@ public:
 	virtual ~StructType()
 	{
 #ifndef ASAGI_NOMPI
-		if (m_mpiType != MPI_DATATYPE_NULL)
+		if (m_mpiType != MPI_DATATYPE_NULL) {
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
 			MPI_Type_free(&m_mpiType);
+		}
 
 		delete [] m_blockLength;
 		delete [] m_displacements;
@@ -151,6 +154,8 @@ public:
 			m_size = size;
 
 #ifndef ASAGI_NOMPI
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
+
 			MPI_Datatype tmpType;
 
 			// Create the mpi datatype
-- 
2.43.0


From 38b0b33a21aee678c4303d9c7d4be47008f07c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 24/47] fix: do not use negative colors to compute the node
 local rank

---
 asagi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asagi.cpp b/asagi.cpp
index 278648b..2180a8c 100644
--- a/asagi.cpp
+++ b/asagi.cpp
@@ -103,7 +103,8 @@ int asagi::Grid::nodeLocalRank(MPI_Comm comm)
 		s2 = (s2 + s1) % 65521;
 	}
 
-	uint32_t hash = (s2 << 16) | s1;
+	// The highest bit is not used because colors are not allowed to be negative
+	uint32_t hash = ((s2 << 16) | s1) & 0x7fffffff;
 	int rank;
 	mpiResult = MPI_Comm_rank(comm, &rank);
 	assert(mpiResult == MPI_SUCCESS);
-- 
2.43.0


From d7b39527119fe6a78e9a1ab291d5ae07de00875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 25/47] fix: count negative CPU ids of the communication thread
 from the last CPU

---
 mpi/commthread.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index d48913d..2da474f 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -157,7 +157,7 @@ public:
 #ifndef __APPLE__
 		// Pin the thread
 		int numCPUs = std::thread::hardware_concurrency();
-		if (schedCPU < numCPUs && -schedCPU <= numCPUs) {
+		if (schedCPU < numCPUs && schedCPU >= -numCPUs) {
 			// Only pin if a valid CPU id is given
 			cpu_set_t cpuset;
 			CPU_ZERO(&cpuset);
@@ -165,7 +165,7 @@ public:
 			if (schedCPU >= 0)
 				CPU_SET(schedCPU, &cpuset);
 			else
-				CPU_SET(numCPUs - schedCPU, &cpuset);
+				CPU_SET(numCPUs + schedCPU, &cpuset);
 
 			pthread_setaffinity_np(m_thread, sizeof(cpu_set_t), &cpuset);
 		} else
-- 
2.43.0


From a2e897f265e35bdfe78b78385af9828472259fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 26/47] fix: reset the communicator if the communication thread
 cannot be created

---
 mpi/commthread.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 2da474f..78ae4ae 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -151,8 +151,12 @@ public:
 			return asagi::Grid::MPI_ERROR;
 
 		// Start the thread
-		if (pthread_create(&m_thread, 0L, &commThreadHandler, 0L) != 0)
+		if (pthread_create(&m_thread, 0L, &commThreadHandler, 0L) != 0) {
+			// Allow another try
+			MPI_Group_free(&m_group);
+			MPI_Comm_free(&m_comm);
 			return asagi::Grid::THREAD_ERROR;
+		}
 
 #ifndef __APPLE__
 		// Pin the thread
-- 
2.43.0


From 58a344a0ed0a6156cc0f2ec24d888bcdf570e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 27/47] fix: free the groups used by the communication thread

---
 mpi/commthread.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 78ae4ae..3a99bd3 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -204,10 +204,14 @@ public:
 		m_nextTag = 0;
 		if (!m_receiver.empty()) {
 			logWarning() << "ASAGI: Not all receivers are removed correctly.";
+			for (std::unordered_map<int, ReceiverDetail>::iterator it = m_receiver.begin();
+					it != m_receiver.end(); ++it)
+				MPI_Group_free(&it->second.group);
 			m_receiver.clear();
 		}
 
 		// Free the communicator
+		MPI_Group_free(&m_group);
 		MPI_Comm_free(&m_comm);
 	}
 
@@ -304,7 +308,11 @@ private:
 				if (status.MPI_SOURCE != commThread.m_rank)
 					logError() << "Rank is not allowed to send unregister command";
 
-				commThread.m_receiver.erase(data);
+				std::unordered_map<int, ReceiverDetail>::iterator it = commThread.m_receiver.find(data);
+				if (it != commThread.m_receiver.end()) {
+					MPI_Group_free(&it->second.group);
+					commThread.m_receiver.erase(it);
+				}
 				commThread.m_lock.unlock(); // Release the lock from unregisterReceiver
 				continue;
 			}
-- 
2.43.0


From 96ddb6d54710a24233733b813ff0cf814a243edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:34 +0000
Subject: [PATCH 28/47] fix: return the error of the communication thread in
 all NUMA domains

---
 transfer/mpithreadcache.h | 72 +++++++++++++++++++++++++--------------
 transfer/mpithreadfull.h  | 19 +++++++----
 2 files changed, 59 insertions(+), 32 deletions(-)

diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index 3e20115..a809d7c 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -323,14 +323,17 @@ public:
 
 	virtual ~MPIThreadCache()
 	{
-		if (m_numaDomainId == 0 && m_blockInfoTag >= 0) {
-			delete [] m_cacheManager;
-
-			mpi::CommThread::commThread.unregisterReceiver(m_blockInfoTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_transfererTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_adderTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_deleterTag);
+		if (m_numaDomainId == 0) {
+			if (m_blockInfoTag >= 0)
+				mpi::CommThread::commThread.unregisterReceiver(m_blockInfoTag);
+			if (m_transfererTag >= 0)
+				mpi::CommThread::commThread.unregisterReceiver(m_transfererTag);
+			if (m_adderTag >= 0)
+				mpi::CommThread::commThread.unregisterReceiver(m_adderTag);
+			if (m_deleterTag >= 0)
+				mpi::CommThread::commThread.unregisterReceiver(m_deleterTag);
 
+			delete [] m_cacheManager;
 			delete [] m_mutexes;
 			delete m_infoMutex;
 			delete m_blockMutex;
@@ -368,6 +371,8 @@ public:
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
+		asagi::Grid::Error initError = asagi::Grid::SUCCESS;
+
 		if (m_numaDomainId == 0) {
 			m_cacheManager = new cache::CacheManager*[m_numaDomainSize];
 
@@ -383,30 +388,19 @@ public:
 			m_tagOffset = mpiComm.reserveTags(3);
 
 			// Initialize the receivers
-			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_blockInfoResponder, m_blockInfoTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
-			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_blockTransferer, m_transfererTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
-			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_adder, m_adderTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
-			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_deleter, m_deleterTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
+			initError = registerReceivers(mpiComm);
 
 			m_infoMutex = new threads::Mutex();
 			m_blockMutex = new threads::Mutex();
 		}
 
+		// All NUMA domains have to know if the initialization failed
+		err = numaComm.broadcast(initError);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+		if (initError != asagi::Grid::SUCCESS)
+			return initError;
+
 		err = numaComm.broadcast(m_cacheManager);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
@@ -606,6 +600,32 @@ public:
 	}
 
 private:
+	/**
+	 * Registers all receivers
+	 *
+	 * @param mpiComm The MPI communicator
+	 */
+	asagi::Grid::Error registerReceivers(mpi::MPIComm &mpiComm)
+	{
+		asagi::Grid::Error err = mpi::CommThread::commThread
+			.registerReceiver(mpiComm.comm(), m_blockInfoResponder, m_blockInfoTag);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = mpi::CommThread::commThread
+			.registerReceiver(mpiComm.comm(), m_blockTransferer, m_transfererTag);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = mpi::CommThread::commThread
+			.registerReceiver(mpiComm.comm(), m_adder, m_adderTag);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		return mpi::CommThread::commThread
+			.registerReceiver(mpiComm.comm(), m_deleter, m_deleterTag);
+	}
+
 	/**
 	 * Retrieves a global offset of the block
 	 *
diff --git a/transfer/mpithreadfull.h b/transfer/mpithreadfull.h
index 8939863..7f9fa29 100644
--- a/transfer/mpithreadfull.h
+++ b/transfer/mpithreadfull.h
@@ -143,19 +143,26 @@ public:
 		m_comm = mpiComm.comm();
 		m_mpiType = type.getMPIType();
 
+		asagi::Grid::Error initError = asagi::Grid::SUCCESS;
+
 		if (m_numaDomainId == 0) {
 			// Required as soon as the receiver is registered
 			m_blockTag = mpiComm.reserveTags(1);
 
-			asagi::Grid::Error err = mpi::CommThread::commThread
+			initError = mpi::CommThread::commThread
 				.registerReceiver(m_comm, *this, m_tag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
-			m_sendRecvMutex = new threads::Mutex();
+			if (initError == asagi::Grid::SUCCESS)
+				m_sendRecvMutex = new threads::Mutex();
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_tag);
+		// All NUMA domains have to know if the initialization failed
+		asagi::Grid::Error err = numaComm.broadcast(initError);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+		if (initError != asagi::Grid::SUCCESS)
+			return initError;
+
+		err = numaComm.broadcast(m_tag);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-- 
2.43.0


From 333fa488586be90f19bf36257e00b284a851406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 29/47] fix: read the state of run-once sections atomically

---
 threads/once.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/threads/once.h b/threads/once.h
index 609e46b..8f87f94 100644
--- a/threads/once.h
+++ b/threads/once.h
@@ -38,6 +38,7 @@
 #ifndef THREADS_ONCE_H
 #define THREADS_ONCE_H
 
+#include <atomic>
 #include <mutex>
 
 #include "mutex.h"
@@ -51,7 +52,7 @@ namespace threads
 class Once {
 private:
 	/** Already executed */
-	bool m_state;
+	std::atomic<bool> m_state;
 
 	/** Mutex to lock the state */
 	Mutex m_mutex;
-- 
2.43.0


From 49329bfd2afb692e6161cc39e19bdc216cb6261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:39 +0000
Subject: [PATCH 30/47] fix: read the counters with the mutexes that protect
 them

---
 perf/counter.cpp |  8 ++++----
 perf/counter.h   | 17 ++++++++++++++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/perf/counter.cpp b/perf/counter.cpp
index e3b43a4..e8dff38 100644
--- a/perf/counter.cpp
+++ b/perf/counter.cpp
@@ -59,11 +59,11 @@ unsigned long perf::Counter::get(CounterType type) const
 {
 	switch (type) {
 	case HIT:
-		return m_counter[ACCESS] - m_counter[NUMA] - m_counter[MPI] -  m_counter[FILE];
+		return value(ACCESS) - value(NUMA) - value(MPI) - value(FILE);
 	case NODE_HIT:
-		return m_counter[ACCESS] - m_counter[MPI] -  m_counter[FILE];
+		return value(ACCESS) - value(MPI) - value(FILE);
 	case MISS:
-		return m_counter[NUMA] + m_counter[MPI] + m_counter[FILE];
+		return value(NUMA) + value(MPI) + value(FILE);
 	case INVALID:
 		return 0;
 	default:
@@ -71,7 +71,7 @@ unsigned long perf::Counter::get(CounterType type) const
 		// native counters handle after switch statement
 	}
 
-	return m_counter[type];
+	return value(type);
 }
 
 /**
diff --git a/perf/counter.h b/perf/counter.h
index 6fab96e..935b1fe 100644
--- a/perf/counter.h
+++ b/perf/counter.h
@@ -66,7 +66,7 @@ private:
 
 #ifdef THREADSAFE_COUNTER
 	/** Mutex for counters */
-	threads::Mutex m_mutex[NATIVE_COUNTER_SIZE];
+	mutable threads::Mutex m_mutex[NATIVE_COUNTER_SIZE];
 #endif // THREADSAFE_COUNTER
 
 public:
@@ -136,6 +136,21 @@ public:
 
 	unsigned long get(CounterType type) const;
 
+private:
+	/**
+	 * @return The value of a native counter
+	 */
+	unsigned long value(CounterType type) const
+	{
+		assert(type < NATIVE_COUNTER_SIZE);
+
+#ifdef THREADSAFE_COUNTER
+		std::lock_guard<threads::Mutex> lock(m_mutex[type]);
+#endif // THREADSAFE_COUNTER
+
+		return m_counter[type];
+	}
+
 public:
 	static CounterType name2type(const char* name);
 
-- 
2.43.0


From c0ebbfb177f2c23db65605ab035e049e618bc38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:46 +0000
Subject: [PATCH 31/47] fix: lock the array of Fortran pointers for all
 accesses

---
 fortran/pointerarray.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fortran/pointerarray.h b/fortran/pointerarray.h
index 97d6d18..569e4e3 100644
--- a/fortran/pointerarray.h
+++ b/fortran/pointerarray.h
@@ -61,9 +61,9 @@ private:
 	std::vector<T*> m_pointers;
 
 	/**
-	 * Lock, we use to make sure only one thread at a time adds a pointer
+	 * Lock, we use to make sure only one thread at a time accesses the array
 	 */
-	threads::Mutex m_lock;
+	mutable threads::Mutex m_lock;
 public:
 	/**
 	 * Add a new pointer to the map
@@ -85,6 +85,8 @@ public:
 	 */
 	T* get(int i) const
 	{
+		std::lock_guard<threads::Mutex> lock(m_lock);
+
 		assert(i >= 0 &&
 			static_cast<unsigned int>(i) < m_pointers.size());
 		
@@ -96,6 +98,8 @@ public:
 	 */
 	void remove(int i)
 	{
+		std::lock_guard<threads::Mutex> lock(m_lock);
+
 		assert(i >= 0 &&
 			static_cast<unsigned int>(i) < m_pointers.size());
 		
-- 
2.43.0


From 502e32a805693b9411c1cd807a9057555b96134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 32/47] fix: register the receivers of the cache after the
 other members are initialized

---
 transfer/mpithreadcache.h | 41 ++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index a809d7c..7edb36f 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -371,8 +371,6 @@ public:
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-		asagi::Grid::Error initError = asagi::Grid::SUCCESS;
-
 		if (m_numaDomainId == 0) {
 			m_cacheManager = new cache::CacheManager*[m_numaDomainSize];
 
@@ -384,23 +382,12 @@ public:
 			// Create the mutexes for the blocks
 			m_mutexes = new threads::Mutex[blockCount * m_numaDomainSize];
 
-			// Required as soon as the receivers are registered
 			m_tagOffset = mpiComm.reserveTags(3);
 
-			// Initialize the receivers
-			initError = registerReceivers(mpiComm);
-
 			m_infoMutex = new threads::Mutex();
 			m_blockMutex = new threads::Mutex();
 		}
 
-		// All NUMA domains have to know if the initialization failed
-		err = numaComm.broadcast(initError);
-		if (err != asagi::Grid::SUCCESS)
-			return err;
-		if (initError != asagi::Grid::SUCCESS)
-			return initError;
-
 		err = numaComm.broadcast(m_cacheManager);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
@@ -411,31 +398,45 @@ public:
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-		err = numaComm.broadcast(m_blockInfoTag);
+		err = numaComm.broadcast(m_tagOffset);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-		err = numaComm.broadcast(m_transfererTag);
+		err = numaComm.broadcast(m_infoMutex);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-		err = numaComm.broadcast(m_adderTag);
+		err = numaComm.broadcast(m_blockMutex);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-		err = numaComm.broadcast(m_deleterTag);
+		// Initialize the receivers. As soon as they are registered, other processes
+		// may use this class.
+		asagi::Grid::Error initError = asagi::Grid::SUCCESS;
+
+		if (m_numaDomainId == 0)
+			initError = registerReceivers(mpiComm);
+
+		// All NUMA domains have to know if the initialization failed
+		err = numaComm.broadcast(initError);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
+		if (initError != asagi::Grid::SUCCESS)
+			return initError;
 
-		err = numaComm.broadcast(m_tagOffset);
+		err = numaComm.broadcast(m_blockInfoTag);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-		err = numaComm.broadcast(m_infoMutex);
+		err = numaComm.broadcast(m_transfererTag);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-		err = numaComm.broadcast(m_blockMutex);
+		err = numaComm.broadcast(m_adderTag);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = numaComm.broadcast(m_deleterTag);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-- 
2.43.0


From b0f3fd8d541b017f02a1286bf664298efdddb346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 33/47] fix: register the receiver of full grids after the
 other members are initialized

---
 transfer/mpithreadfull.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/transfer/mpithreadfull.h b/transfer/mpithreadfull.h
index 7f9fa29..385d3ae 100644
--- a/transfer/mpithreadfull.h
+++ b/transfer/mpithreadfull.h
@@ -143,12 +143,18 @@ public:
 		m_comm = mpiComm.comm();
 		m_mpiType = type.getMPIType();
 
+		if (m_numaDomainId == 0)
+			m_blockTag = mpiComm.reserveTags(1);
+
+		asagi::Grid::Error err = numaComm.broadcast(m_blockTag);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		// Initialize the receiver. As soon as it is registered, other processes
+		// may use this class.
 		asagi::Grid::Error initError = asagi::Grid::SUCCESS;
 
 		if (m_numaDomainId == 0) {
-			// Required as soon as the receiver is registered
-			m_blockTag = mpiComm.reserveTags(1);
-
 			initError = mpi::CommThread::commThread
 				.registerReceiver(m_comm, *this, m_tag);
 			if (initError == asagi::Grid::SUCCESS)
@@ -156,7 +162,7 @@ public:
 		}
 
 		// All NUMA domains have to know if the initialization failed
-		asagi::Grid::Error err = numaComm.broadcast(initError);
+		err = numaComm.broadcast(initError);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 		if (initError != asagi::Grid::SUCCESS)
@@ -166,10 +172,6 @@ public:
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-		err = numaComm.broadcast(m_blockTag);
-		if (err != asagi::Grid::SUCCESS)
-			return err;
-
 		err = numaComm.broadcast(m_sendRecvMutex);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
-- 
2.43.0


From 9e744935c5a02ec162aa64f22d12f8fce7a50c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:36 +0000
Subject: [PATCH 34/47] fix: wait for all threads before another level is
 opened

---
 numa/numa.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/numa/numa.cpp b/numa/numa.cpp
index 469f4d2..5dbe429 100644
--- a/numa/numa.cpp
+++ b/numa/numa.cpp
@@ -75,6 +75,10 @@ numa::Numa::~Numa()
 asagi::Grid::Error numa::Numa::registerThread(bool &masterThread, bool detectNumaDomains)
 {
 	if (m_initialized) {
+		// The caller may modify the grid, wait until no thread uses it anymore
+		if (!m_syncThreads.barrier(m_totalThreads))
+			return asagi::Grid::THREAD_ERROR;
+
 		masterThread = m_masterThreads[threadId()];
 		return asagi::Grid::SUCCESS;
 	}
-- 
2.43.0


From 803d701cc8567cafbd3f3dccd8b2119a54f0b980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 35/47] fix: protect the receivers of the communication thread

---
 mpi/commthread.h | 52 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 3a99bd3..275a87d 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -113,6 +113,12 @@ private:
 	/** Lock used for thread safety */
 	threads::Mutex m_lock;
 
+	/**
+	 * Protects the map of receivers. {@link m_lock} cannot be used for this, because
+	 * it is held while waiting for the communication thread.
+	 */
+	threads::Mutex m_receiverLock;
+
 private:
 	CommThread()
 		: m_comm(MPI_COMM_NULL), m_group(MPI_GROUP_NULL), m_rank(0),
@@ -243,7 +249,10 @@ public:
 		ReceiverDetail detail;
 		detail.recv = &receiver;
 		MPI_Comm_group(comm, &detail.group);
-		m_receiver[tag] = detail;
+		{
+			std::lock_guard<threads::Mutex> receiverLock(m_receiverLock);
+			m_receiver[tag] = detail;
+		}
 
 		// Do not send messages before all processes know the receiver
 		if (MPI_Barrier(comm) != MPI_SUCCESS)
@@ -275,17 +284,34 @@ public:
 	 */
 	void send(int tag, int recv, message_t data)
 	{
-		std::unordered_map<int, ReceiverDetail>::const_iterator it = m_receiver.find(tag);
-		if (it == m_receiver.end())
+		ReceiverDetail detail;
+		if (!findReceiver(tag, detail))
 			logWarning() << "ASAGI: Sending message from unregistered tag" << tag;
 		else {
 			int recvRank;
-			MPI_Group_translate_ranks(it->second.group, 1, &recv, m_group, &recvRank);
+			MPI_Group_translate_ranks(detail.group, 1, &recv, m_group, &recvRank);
 			MPI_Send(&data, 1, MPI_MESSAGE, recvRank, tag, m_comm);
 		}
 	}
 
 private:
+	/**
+	 * Looks up the receiver for a tag
+	 *
+	 * @return False if the tag is not registered
+	 */
+	bool findReceiver(int tag, ReceiverDetail &detail)
+	{
+		std::lock_guard<threads::Mutex> receiverLock(m_receiverLock);
+
+		std::unordered_map<int, ReceiverDetail>::const_iterator it = m_receiver.find(tag);
+		if (it == m_receiver.end())
+			return false;
+
+		detail = it->second;
+		return true;
+	}
+
 	/**
 	 * Main function of the communication thread
 	 */
@@ -308,22 +334,24 @@ private:
 				if (status.MPI_SOURCE != commThread.m_rank)
 					logError() << "Rank is not allowed to send unregister command";
 
-				std::unordered_map<int, ReceiverDetail>::iterator it = commThread.m_receiver.find(data);
-				if (it != commThread.m_receiver.end()) {
-					MPI_Group_free(&it->second.group);
-					commThread.m_receiver.erase(it);
+				ReceiverDetail detail;
+				if (commThread.findReceiver(data, detail)) {
+					MPI_Group_free(&detail.group);
+
+					std::lock_guard<threads::Mutex> receiverLock(commThread.m_receiverLock);
+					commThread.m_receiver.erase(data);
 				}
 				commThread.m_lock.unlock(); // Release the lock from unregisterReceiver
 				continue;
 			}
 
-			std::unordered_map<int, ReceiverDetail>::const_iterator it = commThread.m_receiver.find(status.MPI_TAG);
-			if (it == commThread.m_receiver.end())
+			ReceiverDetail detail;
+			if (!commThread.findReceiver(status.MPI_TAG, detail))
 				logWarning() << "ASAGI: Received unregistered message with tag" << status.MPI_TAG;
 			else {
 				int senderRank;
-				MPI_Group_translate_ranks(commThread.m_group, 1, &status.MPI_SOURCE, it->second.group, &senderRank);
-				it->second.recv->recv(senderRank, data);
+				MPI_Group_translate_ranks(commThread.m_group, 1, &status.MPI_SOURCE, detail.group, &senderRank);
+				detail.recv->recv(senderRank, data);
 			}
 		}
 
-- 
2.43.0


From 84e52e181ac204e6933b85fbfcafce601fbf957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:16 +0000
Subject: [PATCH 36/47] fix: do not use the thread key if it could not be
 created

---
 numa/numa.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/numa/numa.cpp b/numa/numa.cpp
index 5dbe429..dee43dd 100644
--- a/numa/numa.cpp
+++ b/numa/numa.cpp
@@ -57,7 +57,8 @@ numa::Numa::Numa()
 
 numa::Numa::~Numa()
 {
-	pthread_key_delete(m_ptkey);
+	if (!m_keyError)
+		pthread_key_delete(m_ptkey);
 }
 
 /**
@@ -74,6 +75,10 @@ numa::Numa::~Numa()
  */
 asagi::Grid::Error numa::Numa::registerThread(bool &masterThread, bool detectNumaDomains)
 {
+	// Check if the key was created successfully
+	if (m_keyError)
+		return asagi::Grid::THREAD_ERROR;
+
 	if (m_initialized) {
 		// The caller may modify the grid, wait until no thread uses it anymore
 		if (!m_syncThreads.barrier(m_totalThreads))
@@ -144,10 +149,6 @@ asagi::Grid::Error numa::Numa::registerThread(bool &masterThread, bool detectNum
 	if (!m_syncThreads.endBarrier())
 		return asagi::Grid::THREAD_ERROR;
 
-	// Check if the key was created successfully
-	if (m_keyError)
-		return asagi::Grid::THREAD_ERROR;
-
 	// Finally store the thread and domain id in the pthread key
 	uintptr_t ids = (static_cast<uintptr_t>(threadId) << sizeof(id_t)*8) | domainId;
 
-- 
2.43.0


From 67cbeb1944cc8bc4adc5cd64b76361966a4acaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:06 +0000
Subject: [PATCH 37/47] fix: return the error of the NUMA detection in all
 threads

---
 numa/numa.cpp | 38 +++++++++++++++++++++++++++-----------
 numa/numa.h   |  3 +++
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/numa/numa.cpp b/numa/numa.cpp
index dee43dd..2885e37 100644
--- a/numa/numa.cpp
+++ b/numa/numa.cpp
@@ -48,7 +48,8 @@
 numa::Numa::Numa()
 	: m_totalThreads(1),
 	  m_initialized(false),
-	  m_keyError(false)
+	  m_keyError(false),
+	  m_domainError(false)
 {
 	if (pthread_key_create(&m_ptkey, 0L) != 0)
 		// remember this error
@@ -89,23 +90,25 @@ asagi::Grid::Error numa::Numa::registerThread(bool &masterThread, bool detectNum
 	}
 
 	// Get the NUMA domain
+	int domain = 0;
 #ifndef __APPLE__
 	int cpu = sched_getcpu();
 	if (cpu < 0)
-		return asagi::Grid::NUMA_ERROR;
-#endif
-#if defined(ASAGI_NONUMA) || defined(__APPLE__)
-	int domain = 0;
-#else // ASAGI_NONUMA || __APPLE__
-	int domain = numa_node_of_cpu(cpu);
-	if (domain < 0)
-		return asagi::Grid::NUMA_ERROR;
-#endif // ASAGI_NONUMA || __APPLE__
+		domain = -1;
+#ifndef ASAGI_NONUMA
+	else
+		domain = numa_node_of_cpu(cpu);
+#endif // ASAGI_NONUMA
+#endif // __APPLE__
 
 	// Lock all variables
 	if (!m_syncThreads.startBarrier())
 		return asagi::Grid::THREAD_ERROR;
 
+	// Do not return before all threads know about the error
+	if (domain < 0)
+		m_domainError = true;
+
 	// Get thead id
 	unsigned int threadId = m_syncThreads.waiting();
 #if DEBUG_NUMA
@@ -141,14 +144,27 @@ asagi::Grid::Error numa::Numa::registerThread(bool &masterThread, bool detectNum
 
 	// Last thread?
 	if (m_syncThreads.waiting() >= m_totalThreads-1)
-		m_initialized = true;
+		m_initialized = !m_domainError;
 
 	// Wait for all threads
 	if (!m_syncThreads.waitBarrier(m_totalThreads))
 		return asagi::Grid::THREAD_ERROR;
+
+	// Did the detection fail in any thread?
+	bool domainError = m_domainError;
+	if (domainError && m_syncThreads.waiting() == 0) {
+		// Last thread, start again with the next call
+		m_domains.clear();
+		m_masterThreads.clear();
+		m_domainError = false;
+	}
+
 	if (!m_syncThreads.endBarrier())
 		return asagi::Grid::THREAD_ERROR;
 
+	if (domainError)
+		return asagi::Grid::NUMA_ERROR;
+
 	// Finally store the thread and domain id in the pthread key
 	uintptr_t ids = (static_cast<uintptr_t>(threadId) << sizeof(id_t)*8) | domainId;
 
diff --git a/numa/numa.h b/numa/numa.h
index 236a114..379050a 100644
--- a/numa/numa.h
+++ b/numa/numa.h
@@ -95,6 +95,9 @@ private:
 	/** True, if the key could not be created */
 	bool m_keyError;
 
+	/** True, if the domain of a thread could not be detected */
+	bool m_domainError;
+
 	/** Synchronization mechanism for the threads */
 	mutable threads::Sync m_syncThreads;
 
-- 
2.43.0


From 83a61fdcc43f51c043dc7b18e0f1e5162b28a62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:04 +0000
Subject: [PATCH 38/47] fix: accept the NUMA detection flag in the build
 without pthreads

---
 numa/nonuma.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numa/nonuma.h b/numa/nonuma.h
index 8c39aaa..fa0ee53 100644
--- a/numa/nonuma.h
+++ b/numa/nonuma.h
@@ -71,8 +71,9 @@ public:
 	/**
 	 * @param[out] masterThread Will be set to <code>true</code> since only
 	 *  one thread should exist.
+	 * @param detectNumaDomains Ignored
 	 */
-	asagi::Grid::Error registerThread(bool &masterThread)
+	asagi::Grid::Error registerThread(bool &masterThread, bool detectNumaDomains = true)
 	{
 		masterThread = true;
 		return asagi::Grid::SUCCESS;
-- 
2.43.0


From 0e1fb3ada4e6202e83d1e2ce131090b08331c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:04 +0000
Subject: [PATCH 39/47] fix: use the same error codes in the C interface

---
 include/asagi.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/asagi.h b/include/asagi.h
index c9a6757..8b9de1e 100644
--- a/include/asagi.h
+++ b/include/asagi.h
@@ -438,7 +438,6 @@ typedef enum {
 	ASAGI_VAR_NOT_FOUND,
 	ASAGI_WRONG_SIZE,
 	ASAGI_UNSUPPORTED_DIMENSIONS,
-	ASAGI_MULTIPLE_TOPGRIDS,
 	ASAGI_INVALID_VAR_SIZE
 } asagi_error;
 #endif
-- 
2.43.0


From b1c6094a1652d522b50a641c6a7e363aa48c0a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:19 +0000
Subject: [PATCH 40/47] fix: release the lock of the communication thread in
 the thread that holds it

The communication thread unlocked a mutex that was locked by the thread
that removes a receiver, which is undefined behaviour for std::mutex. The
receivers have their own lock, the hand-over is not required.
---
 mpi/commthread.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 275a87d..ab88537 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -269,7 +269,7 @@ public:
 		// Send unregister signal
 		// We do this via the thread to make sure all messages in the
 		// that might concern this receiver are received
-		m_lock.lock(); // The lock is released by the communication thread
+		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		message_t data = tag; // Tag is provided in the data field
 		MPI_Ssend(&data, 1, MPI_MESSAGE, m_rank, UNREG_TAG, m_comm);
@@ -341,7 +341,6 @@ private:
 					std::lock_guard<threads::Mutex> receiverLock(commThread.m_receiverLock);
 					commThread.m_receiver.erase(data);
 				}
-				commThread.m_lock.unlock(); // Release the lock from unregisterReceiver
 				continue;
 			}
 
-- 
2.43.0


From 9f796523faa353d36a6f748b83cb429472d1f602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:52 +0000
Subject: [PATCH 41/47] fix: one-dimensional noise takes one coordinate

---
 preprocess/gen_noise/pnoise.py | 427 ++++++++++++++++-----------------
 1 file changed, 212 insertions(+), 215 deletions(-)

diff --git a/preprocess/gen_noise/pnoise.py b/preprocess/gen_noise/pnoise.py
index b85ee93..21fab36 100644
--- a/preprocess/gen_noise/pnoise.py
+++ b/preprocess/gen_noise/pnoise.py
@@ -1,215 +1,212 @@
-import math
-p = (
-151,160,137,91,90,15,131,13,201,95,96,53,194,233,7,225,140,36,103,
-30,69,142,8,99,37,240,21,10,23,190,6,148,247,120,234,75,0,26,197,
-62,94,252,219,203,117,35,11,32,57,177,33,88,237,149,56,87,174,20,
-125,136,171,168,68,175,74,165,71,134,139,48,27,166,77,146,158,231,
-83,111,229,122,60,211,133,230,220,105,92,41,55,46,245,40,244,102,
-143,54,65,25,63,161,1,216,80,73,209,76,132,187,208,89,18,169,200,
-196,135,130,116,188,159,86,164,100,109,198,173,186,3,64,52,217,226,
-250,124,123,5,202,38,147,118,126,255,82,85,212,207,206,59,227,47,16,
-58,17,182,189,28,42,223,183,170,213,119,248,152,2,44,154,163,70,
-221,153,101,155,167,43,172,9,129,22,39,253,19,98,108,110,79,113,
-224,232,178,185,112,104,218,246,97,228,251,34,242,193,238,210,144,
-12,191,179,162,241,81,51,145,235,249,14,239,107,49,192,214,31,181,
-199,106,157,184,84,204,176,115,121,50,45,127,4,150,254,138,236,
-205,93,222,114,67,29,24,72,243,141,128,195,78,66,215,61,156,180,
-151,160,137,91,90,15,131,13,201,95,96,53,194,233,7,225,140,36,103,
-30,69,142,8,99,37,240,21,10,23,190,6,148,247,120,234,75,0,26,197,
-62,94,252,219,203,117,35,11,32,57,177,33,88,237,149,56,87,174,20,
-125,136,171,168,68,175,74,165,71,134,139,48,27,166,77,146,158,231,
-83,111,229,122,60,211,133,230,220,105,92,41,55,46,245,40,244,102,
-143,54,65,25,63,161,1,216,80,73,209,76,132,187,208,89,18,169,200,
-196,135,130,116,188,159,86,164,100,109,198,173,186,3,64,52,217,226,
-250,124,123,5,202,38,147,118,126,255,82,85,212,207,206,59,227,47,16,
-58,17,182,189,28,42,223,183,170,213,119,248,152,2,44,154,163,70,
-221,153,101,155,167,43,172,9,129,22,39,253,19,98,108,110,79,113,
-224,232,178,185,112,104,218,246,97,228,251,34,242,193,238,210,144,
-12,191,179,162,241,81,51,145,235,249,14,239,107,49,192,214,31,181,
-199,106,157,184,84,204,176,115,121,50,45,127,4,150,254,138,236,
-205,93,222,114,67,29,24,72,243,141,128,195,78,66,215,61,156,180)
-  
-def lerp(t, a, b):
-    return a + t * (b - a)
-  
-def fade(t):
-    return t * t * t * (t * (t * 6 - 15) + 10)
-
-def grad1D(hash, x):
-    h = hash & 15
-    if h < 8:
-        u = x
-    else:
-        u = 0
-    if h < 4:
-        v = 0
-    elif h == 12 or h == 14:
-        v = x
-    else:
-        v = 0
-    if h & 1 != 0:
-        u = -u
-    if h & 2 != 0:
-        v = -v
-    return u + v
-
-def grad2D(hash, x, y):
-    h = hash & 15
-    if h < 8:
-        u = x
-    else:
-        u = y
-    if h < 4:
-        v = y
-    elif h == 12 or h == 14:
-        v = x
-    else:
-        v = 0
-    if h & 1 != 0:
-        u = -u
-    if h & 2 != 0:
-        v = -v
-    return u + v
-  
-def grad3D(hash, x, y, z):
-    h = hash & 15
-    if h < 8:
-        u = x
-    else:
-        u = y
-    if h < 4:
-        v = y
-    elif h == 12 or h == 14:
-        v = x
-    else:
-        v = z
-    if h & 1 != 0:
-        u = -u
-    if h & 2 != 0:
-        v = -v
-    return u + v
-
-def pnoise1D(x, y):
-    global p
-    X = int(math.floor(x)) & 255
-    Y = int(math.floor(y)) & 255
-    x -= math.floor(x)
-    y -= math.floor(y)
-    
-    u = fade(x)
-    v = fade(y)
-    
-    A =  p[X]
-    B =  p[(X + 1) & 255]
-    
-    gradA = grad1D(A, x)
-    gradB = grad1D(B, x-1)
-    return lerp(u, gradA, gradB)
- 
-def pnoise2D(x, y):
-    global p
-    X = int(math.floor(x)) & 255
-    Y = int(math.floor(y)) & 255
-    x -= math.floor(x)
-    y -= math.floor(y)
-    
-    u = fade(x)
-    v = fade(y)
-    
-    A = p[X] + Y
-    B = p[(X + 1) & 255] + Y
-    
-    AA = p[A]
-    AB = p[(A + 1) & 255]
-    BA = p[B]
-    BB = p[(B + 1) & 255]
-    
-    gradAA = grad2D(AA, x,   y)
-    gradBA = grad2D(BA, x-1, y)
-    gradAB = grad2D(AB, x,   y-1)
-    gradBB = grad2D(BB, x-1, y-1)
-    return lerp(v, lerp(u, gradAA, gradBA), lerp(u, gradAB, gradBB)) 
-
-def pnoise3D(x, y, z):
-    global p
-    X = int(math.floor(x)) & 255
-    Y = int(math.floor(y)) & 255
-    Z = int(math.floor(z)) & 255
-    x -= math.floor(x)
-    y -= math.floor(y)
-    z -= math.floor(z)
-    
-    u = fade(x)
-    v = fade(y)
-    w = fade(z)
-    
-    A = p[X] + Y
-    B = p[(X + 1) & 255] + Y
-    
-    AA = p[A] + Z
-    AB = p[(A + 1) & 255] + Z
-    BA = p[B] + Z
-    BB = p[(B + 1) & 255] + Z
-    
-    AAA = p[AA]
-    ABA = p[AB]
-    BAA = p[BA]
-    BBA = p[BB]
-    AAB = p[AA + 1]
-    BAB = p[BA + 1]
-    ABB = p[AB + 1]
-    BBB = p[BB + 1]
-    
-    gradAAA = grad3D(AAA, x,   y,   z)
-    gradBAA = grad3D(BAA, x-1, y,   z)
-    gradABA = grad3D(ABA, x,   y-1, z)
-    gradBBA = grad3D(BBA, x-1, y-1, z)
-    gradAAB = grad3D(AAB,x,   y,   z-1)
-    gradBAB = grad3D(BAB,x-1, y,   z-1)
-    gradABB = grad3D(ABB,x,   y-1, z-1)
-    gradBBB = grad3D(BBB,x-1, y-1, z-1)
-    return lerp(w, 
-    lerp(v, lerp(u, gradAAA, gradBAA), lerp(u, gradABA, gradBBA)),
-    lerp(v, lerp(u, gradAAB, gradBAB), lerp(u, gradABB, gradBBB)))
-
-def noise1D(x, depth, roughness):
-	f = 1.0
-	n = 0.0
-	sum_f = 0.0
-	
-	for i in range(0, depth + 1):
-		n += f * pnoise1D(x)
-		sum_f += f
-		f *= roughness
-		x *= 2.0
-	
-	return n / sum_f
-
-def noise2D(x, y, depth, roughness):
-	f = 1.0
-	n = 0.0
-	sum_f = 0.0
-	
-	for i in range(0, depth + 1):
-		n += f * pnoise2D(x, y)
-		sum_f += f
-		f *= roughness
-		x *= 2.0
-		y *= 2.0
-	
-	return n / sum_f
-
-def noise3D(x, y, z, depth, roughness):
-	f = 1.0
-	n = 0.0
-	sum_f = 0.0
-	
-	for i in range(0, depth + 1):
-		n += f * pnoise3D(x, y, z)
-		sum_f += f
-		f *= roughness
-		x *= 2.0
-		y *= 2.0
-		z *= 2.0
-	
-	return n / sum_f
+import math
+p = (
+151,160,137,91,90,15,131,13,201,95,96,53,194,233,7,225,140,36,103,
+30,69,142,8,99,37,240,21,10,23,190,6,148,247,120,234,75,0,26,197,
+62,94,252,219,203,117,35,11,32,57,177,33,88,237,149,56,87,174,20,
+125,136,171,168,68,175,74,165,71,134,139,48,27,166,77,146,158,231,
+83,111,229,122,60,211,133,230,220,105,92,41,55,46,245,40,244,102,
+143,54,65,25,63,161,1,216,80,73,209,76,132,187,208,89,18,169,200,
+196,135,130,116,188,159,86,164,100,109,198,173,186,3,64,52,217,226,
+250,124,123,5,202,38,147,118,126,255,82,85,212,207,206,59,227,47,16,
+58,17,182,189,28,42,223,183,170,213,119,248,152,2,44,154,163,70,
+221,153,101,155,167,43,172,9,129,22,39,253,19,98,108,110,79,113,
+224,232,178,185,112,104,218,246,97,228,251,34,242,193,238,210,144,
+12,191,179,162,241,81,51,145,235,249,14,239,107,49,192,214,31,181,
+199,106,157,184,84,204,176,115,121,50,45,127,4,150,254,138,236,
+205,93,222,114,67,29,24,72,243,141,128,195,78,66,215,61,156,180,
+151,160,137,91,90,15,131,13,201,95,96,53,194,233,7,225,140,36,103,
+30,69,142,8,99,37,240,21,10,23,190,6,148,247,120,234,75,0,26,197,
+62,94,252,219,203,117,35,11,32,57,177,33,88,237,149,56,87,174,20,
+125,136,171,168,68,175,74,165,71,134,139,48,27,166,77,146,158,231,
+83,111,229,122,60,211,133,230,220,105,92,41,55,46,245,40,244,102,
+143,54,65,25,63,161,1,216,80,73,209,76,132,187,208,89,18,169,200,
+196,135,130,116,188,159,86,164,100,109,198,173,186,3,64,52,217,226,
+250,124,123,5,202,38,147,118,126,255,82,85,212,207,206,59,227,47,16,
+58,17,182,189,28,42,223,183,170,213,119,248,152,2,44,154,163,70,
+221,153,101,155,167,43,172,9,129,22,39,253,19,98,108,110,79,113,
+224,232,178,185,112,104,218,246,97,228,251,34,242,193,238,210,144,
+12,191,179,162,241,81,51,145,235,249,14,239,107,49,192,214,31,181,
+199,106,157,184,84,204,176,115,121,50,45,127,4,150,254,138,236,
+205,93,222,114,67,29,24,72,243,141,128,195,78,66,215,61,156,180)
+  
+def lerp(t, a, b):
+    return a + t * (b - a)
+  
+def fade(t):
+    return t * t * t * (t * (t * 6 - 15) + 10)
+
+def grad1D(hash, x):
+    h = hash & 15
+    if h < 8:
+        u = x
+    else:
+        u = 0
+    if h < 4:
+        v = 0
+    elif h == 12 or h == 14:
+        v = x
+    else:
+        v = 0
+    if h & 1 != 0:
+        u = -u
+    if h & 2 != 0:
+        v = -v
+    return u + v
+
+def grad2D(hash, x, y):
+    h = hash & 15
+    if h < 8:
+        u = x
+    else:
+        u = y
+    if h < 4:
+        v = y
+    elif h == 12 or h == 14:
+        v = x
+    else:
+        v = 0
+    if h & 1 != 0:
+        u = -u
+    if h & 2 != 0:
+        v = -v
+    return u + v
+  
+def grad3D(hash, x, y, z):
+    h = hash & 15
+    if h < 8:
+        u = x
+    else:
+        u = y
+    if h < 4:
+        v = y
+    elif h == 12 or h == 14:
+        v = x
+    else:
+        v = z
+    if h & 1 != 0:
+        u = -u
+    if h & 2 != 0:
+        v = -v
+    return u + v
+
+def pnoise1D(x):
+    global p
+    X = int(math.floor(x)) & 255
+    x -= math.floor(x)
+    
+    u = fade(x)
+    
+    A =  p[X]
+    B =  p[(X + 1) & 255]
+    
+    gradA = grad1D(A, x)
+    gradB = grad1D(B, x-1)
+    return lerp(u, gradA, gradB)
+ 
+def pnoise2D(x, y):
+    global p
+    X = int(math.floor(x)) & 255
+    Y = int(math.floor(y)) & 255
+    x -= math.floor(x)
+    y -= math.floor(y)
+    
+    u = fade(x)
+    v = fade(y)
+    
+    A = p[X] + Y
+    B = p[(X + 1) & 255] + Y
+    
+    AA = p[A]
+    AB = p[(A + 1) & 255]
+    BA = p[B]
+    BB = p[(B + 1) & 255]
+    
+    gradAA = grad2D(AA, x,   y)
+    gradBA = grad2D(BA, x-1, y)
+    gradAB = grad2D(AB, x,   y-1)
+    gradBB = grad2D(BB, x-1, y-1)
+    return lerp(v, lerp(u, gradAA, gradBA), lerp(u, gradAB, gradBB)) 
+
+def pnoise3D(x, y, z):
+    global p
+    X = int(math.floor(x)) & 255
+    Y = int(math.floor(y)) & 255
+    Z = int(math.floor(z)) & 255
+    x -= math.floor(x)
+    y -= math.floor(y)
+    z -= math.floor(z)
+    
+    u = fade(x)
+    v = fade(y)
+    w = fade(z)
+    
+    A = p[X] + Y
+    B = p[(X + 1) & 255] + Y
+    
+    AA = p[A] + Z
+    AB = p[(A + 1) & 255] + Z
+    BA = p[B] + Z
+    BB = p[(B + 1) & 255] + Z
+    
+    AAA = p[AA]
+    ABA = p[AB]
+    BAA = p[BA]
+    BBA = p[BB]
+    AAB = p[AA + 1]
+    BAB = p[BA + 1]
+    ABB = p[AB + 1]
+    BBB = p[BB + 1]
+    
+    gradAAA = grad3D(AAA, x,   y,   z)
+    gradBAA = grad3D(BAA, x-1, y,   z)
+    gradABA = grad3D(ABA, x,   y-1, z)
+    gradBBA = grad3D(BBA, x-1, y-1, z)
+    gradAAB = grad3D(AAB,x,   y,   z-1)
+    gradBAB = grad3D(BAB,x-1, y,   z-1)
+    gradABB = grad3D(ABB,x,   y-1, z-1)
+    gradBBB = grad3D(BBB,x-1, y-1, z-1)
+    return lerp(w, 
+    lerp(v, lerp(u, gradAAA, gradBAA), lerp(u, gradABA, gradBBA)),
+    lerp(v, lerp(u, gradAAB, gradBAB), lerp(u, gradABB, gradBBB)))
+
+def noise1D(x, depth, roughness):
+	f = 1.0
+	n = 0.0
+	sum_f = 0.0
+	
+	for i in range(0, depth + 1):
+		n += f * pnoise1D(x)
+		sum_f += f
+		f *= roughness
+		x *= 2.0
+	
+	return n / sum_f
+
+def noise2D(x, y, depth, roughness):
+	f = 1.0
+	n = 0.0
+	sum_f = 0.0
+	
+	for i in range(0, depth + 1):
+		n += f * pnoise2D(x, y)
+		sum_f += f
+		f *= roughness
+		x *= 2.0
+		y *= 2.0
+	
+	return n / sum_f
+
+def noise3D(x, y, z, depth, roughness):
+	f = 1.0
+	n = 0.0
+	sum_f = 0.0
+	
+	for i in range(0, depth + 1):
+		n += f * pnoise3D(x, y, z)
+		sum_f += f
+		f *= roughness
+		x *= 2.0
+		y *= 2.0
+		z *= 2.0
+	
+	return n / sum_f
-- 
2.43.0


From 1acc01c062def60590e3571bfb1900a81592ef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:52 +0000
Subject: [PATCH 42/47] fix: use y as the first and x as the last dimension of
 the noise grid

---
 preprocess/gen_noise/create_noise_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocess/gen_noise/create_noise_grid.py b/preprocess/gen_noise/create_noise_grid.py
index c7a3cc9..bda2d72 100755
--- a/preprocess/gen_noise/create_noise_grid.py
+++ b/preprocess/gen_noise/create_noise_grid.py
@@ -22,7 +22,7 @@ def create_grid(width = 128, height = 128, roughness = 0.2, nc_file = None, vtk_
 			nc.createDimension('y', height)
 			nc_x = nc.createVariable('x', 'f4', ('x'))
 			nc_y = nc.createVariable('y', 'f4', ('y'))
-			nc_values = nc.createVariable('z', 'f4', ('x', 'y'))
+			nc_values = nc.createVariable('z', 'f4', ('y', 'x'))
 
 		except ImportError:
 			# Install numpy-devel files
@@ -73,7 +73,7 @@ def create_grid(width = 128, height = 128, roughness = 0.2, nc_file = None, vtk_
 	if vtk_file:
 		for j in range(0, height):
 			for i in range(0, width):
-				vtk.write("%g\n" %nc_values[i,j])
+				vtk.write("%g\n" %nc_values[j,i])
 		vtk.close()
 
 	if nc_file:
-- 
2.43.0


From 092a1301b6d1e26714f875c43c23303625b527e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:52 +0000
Subject: [PATCH 43/47] fix: interpolate in time with Python 3, too

---
 preprocess/interpol_time/interpol_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocess/interpol_time/interpol_time.py b/preprocess/interpol_time/interpol_time.py
index 23834f9..5eded61 100755
--- a/preprocess/interpol_time/interpol_time.py
+++ b/preprocess/interpol_time/interpol_time.py
@@ -51,7 +51,7 @@ for name in ncOld.variables:
 		copyAttributes(oldVariable, newVariable)
 		oldValues = oldVariable[:]
 		for i in range(TIME_STEPS):
-			print "Iteration: "+str(i)
+			print("Iteration: "+str(i))
 			newVariable[i] = [i*v/float(TIME_STEPS) for v in oldValues]
 
 ncOld.close()
-- 
2.43.0


From 57a60d9918a905e180ef87b1db77d2537f24a1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:52 +0000
Subject: [PATCH 44/47] fix: do not overflow when interpolating integers in
 time

---
 preprocess/interpol_time/interpol_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocess/interpol_time/interpol_time.py b/preprocess/interpol_time/interpol_time.py
index 5eded61..2447043 100755
--- a/preprocess/interpol_time/interpol_time.py
+++ b/preprocess/interpol_time/interpol_time.py
@@ -52,7 +52,7 @@ for name in ncOld.variables:
 		oldValues = oldVariable[:]
 		for i in range(TIME_STEPS):
 			print("Iteration: "+str(i))
-			newVariable[i] = [i*v/float(TIME_STEPS) for v in oldValues]
+			newVariable[i] = [i*(1.*v)/float(TIME_STEPS) for v in oldValues]
 
 ncOld.close()
 ncNew.close()
-- 
2.43.0


From de4ab76356e21e3a4fb509e22bc0c77d290b15fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:46 +0000
Subject: [PATCH 45/47] fix: use the tags of removed receivers of the
 communication thread again

Tags were counted up until the communication thread was stopped. After about 8000 cached
grids, they collided with the tags for removing receivers and for stopping the thread
and exceeded the largest tag MPI guarantees.
---
 mpi/commthread.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index ab88537..6368826 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -239,11 +239,25 @@ public:
 		if (m_comm == MPI_COMM_NULL)
 			return asagi::Grid::NOT_INITIALIZED;
 
-		// Compute the tag
-		if (MPI_Allreduce(&m_nextTag, &tag, 1, MPI_INT, MPI_MAX, comm) != MPI_SUCCESS)
+		// Compute the tag, use tags of removed receivers again if no others are left
+		int inUse = 1;
+		int nextTag = m_nextTag;
+		for (int i = 0; inUse && i < UNREG_TAG; i++) {
+			if (MPI_Allreduce(&nextTag, &tag, 1, MPI_INT, MPI_MAX, comm) != MPI_SUCCESS)
+				return asagi::Grid::MPI_ERROR;
+
+			ReceiverDetail oldDetail;
+			inUse = findReceiver(tag, oldDetail);
+			if (MPI_Allreduce(MPI_IN_PLACE, &inUse, 1, MPI_INT, MPI_LOR, comm) != MPI_SUCCESS)
+				return asagi::Grid::MPI_ERROR;
+
+			nextTag = (tag+1) % UNREG_TAG;
+		}
+
+		if (inUse)
 			return asagi::Grid::MPI_ERROR;
 
-		m_nextTag = tag+1;
+		m_nextTag = nextTag;
 
 		// Save the receiver
 		ReceiverDetail detail;
-- 
2.43.0


From a0621c90c46b8dbfe3b7cf11abd009f49e64732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:14 +0000
Subject: [PATCH 46/47] fix: do not hang if only some NUMA domains can open the
 file

The result of the other domains was lost and they waited forever in the
next collective operation.
---
 grid/level/level.h | 15 +++++++++++++++
 numa/numacomm.h    | 25 +++++++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/grid/level/level.h b/grid/level/level.h
index 62311b3..7445993 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -216,6 +216,19 @@ protected:
 		if (m_numaComm == 0L)
 			return asagi::Grid::THREAD_ERROR;
 
+		// The file may be accessible for some of the NUMA domains only
+		return m_numaComm->agree(openFile(filename, varname, valuePos));
+	}
+
+private:
+	/**
+	 * Opens the file and reads the size of the grid
+	 */
+	asagi::Grid::Error openFile(
+			const char* filename,
+			const char* varname,
+			grid::ValuePosition valuePos)
+	{
 		asagi::Grid::Error err;
 
 		// A previous open might have failed
@@ -273,6 +286,8 @@ protected:
 		return asagi::Grid::SUCCESS;
 	}
 
+protected:
+
 	/**
 	 * @return The MPI communicator
 	 */
diff --git a/numa/numacomm.h b/numa/numacomm.h
index b582b77..abfd895 100644
--- a/numa/numacomm.h
+++ b/numa/numacomm.h
@@ -133,6 +133,31 @@ public:
 		return asagi::Grid::SUCCESS;
 	}
 
+	/**
+	 * Finds a common result for all NUMA masters.
+	 * This is a collective operation among the NUMA masters.
+	 *
+	 * @param err The result of this NUMA domain
+	 * @return The error of the first domain that failed or SUCCESS if
+	 *  no domain failed
+	 */
+	asagi::Grid::Error agree(asagi::Grid::Error err)
+	{
+		asagi::Grid::Error result = asagi::Grid::SUCCESS;
+
+		for (unsigned int i = 0; i < totalDomains(); i++) {
+			asagi::Grid::Error domainErr = err;
+			asagi::Grid::Error err2 = broadcast(domainErr, i);
+			if (err2 != asagi::Grid::SUCCESS)
+				return err2;
+
+			if (result == asagi::Grid::SUCCESS)
+				result = domainErr;
+		}
+
+		return result;
+	}
+
 	/**
 	 * Allocates memory for all NUMA domains. This is a collective
 	 * operation among the NUMA masters.
-- 
2.43.0


From a6df6379f1bb6189758d4d94630e1a3d9a405899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:14 +0000
Subject: [PATCH 47/47] fix: do not hang if only some processes can open the
 file

The other processes waited forever in the collective operations that
initialize the transfers.
---
 grid/level/blocked.h |  7 +++++++
 mpi/mpicomm.h        | 24 ++++++++++++++++++++++++
 mpi/nompicomm.h      | 10 ++++++++++
 3 files changed, 41 insertions(+)

diff --git a/grid/level/blocked.h b/grid/level/blocked.h
index 557625d..81c7e81 100644
--- a/grid/level/blocked.h
+++ b/grid/level/blocked.h
@@ -94,6 +94,13 @@ protected:
 			grid::ValuePosition valuePos)
 	{
 		asagi::Grid::Error err = Level<Type>::open(filename, varname, valuePos);
+
+		// The file may be accessible for some of the processes only
+		if (this->numa().domainId() == 0)
+			err = this->comm().agree(err);
+		asagi::Grid::Error err2 = this->numa().broadcast(err);
+		if (err2 != asagi::Grid::SUCCESS)
+			return err2;
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/mpi/mpicomm.h b/mpi/mpicomm.h
index f6d8d48..cc53cc1 100644
--- a/mpi/mpicomm.h
+++ b/mpi/mpicomm.h
@@ -150,6 +150,30 @@ public:
 		MPI_Barrier(m_comm);
 	}
 
+	/**
+	 * Makes sure that no process continues if one of them failed.
+	 * This is a collective operation.
+	 *
+	 * @param err The result of this process
+	 * @return The result of this process or, if only other processes failed,
+	 *  the result of one of them
+	 */
+	asagi::Grid::Error agree(asagi::Grid::Error err) const
+	{
+		if (m_size == 1)
+			return err;
+
+		std::lock_guard<Lock> lock(mpiLock);
+
+		int result = err;
+		if (MPI_Allreduce(MPI_IN_PLACE, &result, 1, MPI_INT, MPI_MAX, m_comm) != MPI_SUCCESS)
+			return asagi::Grid::MPI_ERROR;
+
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+		return static_cast<asagi::Grid::Error>(result);
+	}
+
 	/**
 	 * Reserves <code>num</code> consecutive tags in this communicator
 	 *
diff --git a/mpi/nompicomm.h b/mpi/nompicomm.h
index 4430edb..608f472 100644
--- a/mpi/nompicomm.h
+++ b/mpi/nompicomm.h
@@ -38,6 +38,8 @@
 #ifndef MPI_NOMPICOMM_H
 #define MPI_NOMPICOMM_H
 
+#include "asagi.h"
+
 namespace mpi
 {
 
@@ -76,6 +78,14 @@ public:
 	void barrier() const
 	{
 	}
+
+	/**
+	 * @return The parameter
+	 */
+	asagi::Grid::Error agree(asagi::Grid::Error err) const
+	{
+		return err;
+	}
 };
 
 }
-- 
2.43.0

