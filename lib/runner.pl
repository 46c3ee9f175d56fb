# perl runner.pl LIBDIR LISTFILE : loads each class named in LISTFILE and calls its static method "main".
# Everything is printed through SPVM's own standard output so that the order is kept.
use strict; use warnings;
my ($libdir, $list) = @ARGV;
unshift @INC, $libdir;
open my $fh, '<', $list or die; my @names = map { chomp; $_ } <$fh>; close $fh;
require SPVM; SPVM->import('VP');
my $memcount = $ENV{VP_MEM};
for my $n (@names) {
  SPVM::VP->mark("\x01BEGIN $n");
  my $ok = eval { local $SIG{__WARN__} = sub {}; SPVM::Global::build_class($n, 'runner', 1); 1 };
  if (!$ok) { my $e = $@; $e =~ s/\n\tSPVM::.*//s; SPVM::VP->mark("\x01COMPILE " . $e); SPVM::VP->mark("\x01END $n"); next; }
  my $m0 = SPVM::api()->get_memory_blocks_count if $memcount;
  { no strict 'refs';
    my $api = SPVM::api();
    my $r = eval { $api->call_method($n, 'main'); 1 };
    if (!$r) { my $e = $@; SPVM::VP->mark("\x01EXC " . $e); }
  }
  if ($memcount) { my $m1 = SPVM::api()->get_memory_blocks_count; SPVM::VP->mark("\x01MEM " . ($m1 - $m0)); }
  SPVM::VP->mark("\x01END $n");
}
SPVM::VP->mark("\x01DONE");
