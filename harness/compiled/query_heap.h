// Stands in for the engine's query object when a compiled index is only to be looked at: it notes what is added.
#pragma once
#include <stddef.h>
#include <utility>
#include <vector>
namespace JASS
	{
	class query_heap
		{
		public:
			std::vector<std::pair<long long, long long>> seen;
			void add_rsv(long long document, long long impact)
				{
				seen.push_back({document, impact});
				}
		};
	}
