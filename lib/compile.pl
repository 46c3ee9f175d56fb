# compile.pl DIR LIST: compiles each class of LIST with a compiler of its own; prints "\x01C name" and, on failure, the messages.
use strict; use warnings;
use SPVM::Builder; use SPVM::Builder::Native::Compiler;
my ($dir, $list) = @ARGV;
$| = 1;
open my $fh, '<', $list or die; chomp(my @names = <$fh>);
for my $n (@names) {
  my $c = SPVM::Builder::Native::Compiler->new;
  $c->add_include_dir("$dir/SPVM");
  $c->add_include_dir($_) for map { "$_/SPVM" } @INC;
  $c->set_start_file("start"); $c->set_start_line(1);
  eval { $c->compile($n) };
  if ($@) { my $m = $c->get_error_messages; print "\x01C $n\n", (@$m ? join("\n", @$m) : "(no message) $@"), "\n"; }
  else { print "\x01O $n\n"; }
}
print "\x01DONE\n";
